from .lib import *
def run(h):
    import networkx as nx
    from dppy.exotic_dpps import UST
    from dppy import exotic_dpps_core as core
    def graph(n, edges):
        g = nx.Graph(); g.add_nodes_from(range(n)); g.add_edges_from(edges); return g
    G = {'K2': graph(2, [(0, 1)]), 'path3': graph(3, [(0, 2), (2, 1)]), 'K3': graph(3, [(0, 1), (1, 2), (0, 2)]), 'star4': graph(4, [(3, 0), (3, 1), (3, 2)]), 'C4': graph(4, [(0, 1), (1, 2), (2, 3), (3, 0)]),
         'paw': graph(4, [(0, 1), (1, 2), (0, 2), (2, 3)]), 'diamond': graph(4, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]), 'K4': nx.complete_graph(4)}
    if not h.quick: G.update({'C5': nx.cycle_graph(5), 'bull': graph(5, [(0, 1), (1, 2), (0, 2), (1, 3), (2, 4)]), 'house': graph(5, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4)])})
    def key(t): return tuple(sorted(tuple(sorted(int(x) for x in e)) for e in t.edges()))
    def trees(g):
        n = g.number_of_nodes(); es = [tuple(sorted(e)) for e in g.edges()]; out = []
        for c in itertools.combinations(sorted(es), n - 1):
            t = nx.Graph(); t.add_nodes_from(range(n)); t.add_edges_from(c)
            if nx.is_connected(t): out.append(tuple(sorted(c)))
        return out
    def tree(t, g):
        n = g.number_of_nodes()
        need(isinstance(t, nx.Graph), 'not a graph: %r', t)
        need(set(int(v) for v in t.nodes()) == set(range(n)), 'nodes %s', sorted(t.nodes()))
        need(t.number_of_edges() == n - 1, '%d edges instead of %d: %s', t.number_of_edges(), n - 1, sorted(t.edges()))
        for a, b in t.edges(): need(g.has_edge(int(a), int(b)), '(%s, %s) is not an edge of the graph', a, b)
        need(nx.is_connected(t), 'the sample is not connected: %s', sorted(t.edges()))
    MODES = ('Wilson', 'Aldous-Broder', 'GS', 'Schur', 'Chol')
    for name, g in G.items():
        T = trees(g); n = g.number_of_nodes()
        uni = {t: 1.0 / len(T) for t in T}
        def approx(f, label, mincut, expected=uni):
            def go():
                law, tr, m = enumerate_law(f, 40000 if h.quick else 300000, mincut, budget=1.2 if h.quick else 60); h.stats['paths'] += m
                for t in set(law) | set(expected):
                    p, q = law.get(t, 0.0), expected.get(t, 0.0)
                    # the truncated mass is spread over the trees: allow it, no more
                    need(q - tr - 1e-9 <= p <= q + 1e-9, 'tree %s has probability in [%.6g, %.6g], uniform is %.6g', t, p, p + tr, q)
            h.case(label, go, dict(graph=sorted(g.edges())), 90)
        for mode in MODES:
            def f(rng, mode=mode):
                u = UST(g); e0, n0 = sorted(g.edges()), list(g.nodes())
                for _ in range(1): u.sample(mode, random_state=rng)
                need(len(u.list_of_samples) == 1, 'one sample expected, %d recorded', len(u.list_of_samples))
                need(sorted(g.edges()) == e0 and list(g.nodes()) == n0, 'the graph was modified')
                t = u.list_of_samples[-1]; tree(t, g); return key(t)
            if mode in ('Wilson', 'Aldous-Broder'):
                approx(f, 'law/%s %s' % (name, mode), 1e-5 if n <= 3 else (1e-4 if h.quick else 2e-6))
            else: h.law('law/%s %s' % (name, mode), f, uni, dict(graph=sorted(g.edges())))
        # every root of the core samplers
        nb = [list(g.neighbors(v)) for v in range(n)]
        for fn in ('ust_sampler_wilson', 'ust_sampler_aldous_broder'):
            for root in range(n):
                if n > 3 and h.quick and root > 1: continue
                def f(rng, fn=fn, root=root):
                    nb0 = [list(x) for x in nb]
                    t = getattr(core, fn)(nb, root=root, random_state=rng)
                    need(nb0 == nb, 'the neighbour lists were modified')
                    tree(t, g); return key(t)
                approx(f, 'root/%s %s root=%d' % (name, fn, root), 1e-4 if h.quick else 2e-6)
        def ker():
            u = UST(g); u.compute_kernel()
            B = nx.incidence_matrix(g, edgelist=list(u.edges), oriented=True).toarray()
            close(u.kernel, la.pinv(B).dot(B), 'transfer current kernel', 1e-8)
            for e1, e2 in zip(u.edges, g.edges()): need(e1 == e2, 'edge order')
        h.case('kernel/%s' % name, ker, dict(graph=sorted(g.edges())))
    # larger graphs: well-formed samples along random draws, kernel
    for name, g in {'K8': nx.complete_graph(8), 'grid': nx.convert_node_labels_to_integers(nx.grid_2d_graph(4, 4)), 'lollipop': nx.lollipop_graph(6, 4), 'petersen': nx.petersen_graph(), 'wheel': nx.wheel_graph(9), 'tree': nx.balanced_tree(2, 3)}.items():
        for mode in MODES:
            for seed in range(6 if h.quick else 60):
                def go(mode=mode, seed=seed):
                    u = UST(g)
                    for q in range(3):
                        u.sample(mode, random_state=seed + q); tree(u.list_of_samples[-1], g)
                    need(len(u.list_of_samples) == 3, '%d samples recorded', len(u.list_of_samples))
                h.case('large/%s %s seed=%d' % (name, mode, seed), go, dict(graph=name, seed=seed))
        def ker(g=g):
            u = UST(g); u.compute_kernel()
            B = nx.incidence_matrix(g, oriented=True).toarray()
            close(u.kernel, la.pinv(B).dot(B), 'transfer current kernel', 1e-8)
        h.case('kernel/%s' % name, ker)
    # edge marginals on a larger graph: frequencies against the transfer current diagonal (Chernoff bound at 1e-9)
    for gname, g in (('diamond', G['diamond']), ('wheel5', nx.wheel_graph(5))):
        B = nx.incidence_matrix(g, oriented=True).toarray(); K = la.pinv(B).dot(B); es = list(g.edges())
        T = trees(g)
        for mode in ('Wilson', 'Aldous-Broder'):
            def go(g=g, mode=mode, T=T):
                rng = h.rng('freq', mode); u = UST(g); M = 6000 if h.quick else 60000
                cnt = {}
                for _ in range(M):
                    u.sample(mode, random_state=rng); t = key(u.list_of_samples.pop()); cnt[t] = cnt.get(t, 0) + 1
                need(set(cnt) <= set(T), 'a sample is not a spanning tree')
                q = 1.0 / len(T)
                for t in T:
                    p = cnt.get(t, 0) / M
                    kl = (p * math.log(p / q) if p > 0 else 0) + ((1 - p) * math.log((1 - p) / (1 - q)) if p < 1 else 0)
                    need(M * kl < math.log(2 * len(T) / 1e-9), 'tree %s has frequency %.4g over %d samples, uniform is %.4g', t, p, M, q)
            h.case('frequencies/%s %s' % (gname, mode), go, dict(graph=sorted(g.edges())))
    h.raises('refusal/not connected', ValueError, lambda: UST(graph(4, [(0, 1), (2, 3)])))
    h.raises('refusal/mode', ValueError, lambda: UST(G['K3']).sample('foo'))
