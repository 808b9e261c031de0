"""C11: spanning tree samplers: the walk, first entrances, loop erasure; transfer-current kernel"""
import itertools
from .base import *
from pvc.values import *

def graph(ctx):
    g = ctx.ghost
    n = z3.Int('n'); ctx.assume(n >= 2)
    adj = z3.Function('adj', I, I, B); deg = z3.Function('deg', I, I)
    node = lambda v: z3.And(v >= 0, v < n)
    ctx.assume(All(lambda v, w: z3.Implies(adj(v, w), z3.And(adj(w, v), v != w, node(v), node(w))), 2, name='simple graph'))
    ctx.assume(All(lambda v: z3.Implies(node(v), deg(v) >= 1), name='connected graph on at least two nodes'))
    g.update(n=n, adj=adj, deg=deg, node=node, moves=[])

class Neighbors:
    """list_of_neighbors: for each node the list of its neighbours"""
    ro = True
    def v_len(self, ctx): return ctx.ghost['n']
    def v_getitem(self, ctx, k):
        ctx.check('node index in range', ctx.ghost['node'](to_int(k)), kind='definedness')
        return NeighborsOf(to_int(k))
class NeighborsOf:
    def __init__(self, v): self.v = v
    def v_len(self, ctx): return ctx.ghost['deg'](self.v)
    def v_getitem(self, ctx, k):
        d = ctx.draws[-1] if ctx.draws else None
        if d is None or d.method != 'randint' or not is_z3(k) or not z3.eq(d.i, k): raise Unsupported('neighbour picked without a draw')
        ctx.check('neighbours are drawn uniformly', z3.And(d.lo == 0, d.hi == ctx.ghost['deg'](self.v)))
        return self.move(ctx)
    def move(self, ctx):
        g = ctx.ghost; w = fresh('move', I)
        ctx.assume(g['adj'](self.v, w)); ctx.assume([w >= 0, w < g['n']])
        g['moves'].append((self.v, w))
        return w
class WalkRng(Rng):
    """generator: a uniform draw from a list of neighbours is a step of the simple random walk"""
    def v_method(self, ctx, name, args, kw):
        if name == 'choice' and args and isinstance(args[0], NeighborsOf):
            if len(args) > 1 or kw: raise Unsupported('choice with options')
            return args[0].move(ctx)
        return NotImplemented
class Graph:
    """a networkx graph built from a list of edges"""
    def __init__(self): self.edges = []
    def v_method(self, ctx, name, args, kw):
        if name == 'add_edges_from' and len(args) == 1 and not kw: self.edges.append(args[0]); return None
        raise Unsupported('graph method %s' % name)
def new_graph(ctx, args, kw):
    if args or kw: raise Unsupported('graph constructor arguments')
    return Graph()

class Walk(LoopSpec):
    name = 'walk'
    def begin(self, ls):
        g, ctx = ls.g, ls.ctx
        g['moves'] = []; ctx.draws = []; ctx.adv_writes = []
        self.start(ls)
    def one_move(self, ls, cur, what='one step of the walk from the current node'):
        g, ctx = ls.g, ls.ctx
        if len(g['moves']) != 1: ctx.check(what, False); raise PathEnd()
        v, w = g['moves'][0]
        ctx.check(what, v == cur)
        return w

class Sampler(FnContract):
    prop = 'C11'
    scenarios = ('no root', 'root')
    externals = {'networkx.Graph': new_graph}
    must_reach = ('pre', 'return', 'walk:body', 'walk:exit')
    def setup(self, ctx):
        graph(ctx)
        root = None
        if self.scenario == 'root':
            root = z3.Int('root'); ctx.assume(ctx.ghost['node'](root))
        return [Neighbors(), root, WalkRng()], {}
    def tree(self, ctx, v):
        if not isinstance(v, Graph): ctx.check('a graph is returned', False); raise PathEnd()
        ctx.check('the edges are added once', len(v.edges) == 1)
        if len(v.edges) != 1: raise PathEnd()
        return v.edges[0]

# ---------------------------------------------------------------- Aldous-Broder
class FirstEntrance(Walk):
    def entry(self, ls):
        g = ls.g
        n0 = to_int(ls.v('n0'))
        g['start'] = n0
        g['rank'] = lambda v: z3.If(v == n0, z3.IntVal(0), z3.IntVal(-1))
    def head(self, ls):
        f = fresh_fn('rank', I, I); ls.g['rank'] = lambda v: f(v)
    def inv(self, ls):
        g, ctx = ls.g, ls.ctx
        n, adj, node, rank, s = g['n'], g['adj'], g['node'], g['rank'], g['start']
        nb, n0, E, vis = to_int(ls.v('nb_nodes_in_tree')), to_int(ls.v('n0')), ls.v('tree_edges').snap(), ls.v('visited').snap()
        return [('number of visited nodes', z3.And(nb >= 1, nb <= n)),
                ('the walk starts at a node', z3.And(node(s), rank(s) == 0)),
                ('the current node is visited', z3.And(node(n0), to_bool(vis(n0)))),
                ('visited nodes are ranked by first visit', All(lambda v: z3.Implies(node(v), z3.And(to_bool(vis(v)) == (rank(v) >= 0), rank(v) < nb)))),
                ('each edge enters a node for the first time, from a node visited before', All(lambda e: z3.Implies(rng_in((e, nb - 1)), z3.And(node(E(e, z3.IntVal(0))), node(E(e, z3.IntVal(1))),
                    adj(E(e, z3.IntVal(0)), E(e, z3.IntVal(1))), rank(E(e, z3.IntVal(1))) == e + 1, rank(E(e, z3.IntVal(0))) >= 0, rank(E(e, z3.IntVal(0))) <= e))))]
    def start(self, ls):
        ls.n0, ls.nb, ls.E, ls.vis = to_int(ls.v('n0')), to_int(ls.v('nb_nodes_in_tree')), ls.v('tree_edges').snap(), ls.v('visited').snap()
    def end(self, ls):
        g, ctx = ls.g, ls.ctx
        w = self.one_move(ls, ls.n0)
        nb, E = to_int(ls.v('nb_nodes_in_tree')), ls.v('tree_edges').snap()
        ctx.check('the walk moves to the node drawn', to_int(ls.v('n0')) == w)
        old = to_bool(ls.vis(w))
        ctx.check('nothing is recorded when the node was visited before', z3.Implies(old, nb == ls.nb))
        ctx.check('the edge of the first entrance is recorded', z3.Implies(z3.Not(old), z3.And(nb == ls.nb + 1, E(ls.nb - 1, z3.IntVal(0)) == ls.n0, E(ls.nb - 1, z3.IntVal(1)) == w)))
        ctx.check('earlier edges are kept', All(lambda e, c: z3.Implies(z3.And(rng_in((e, ls.nb - 1), (c, 2))), E(e, c) == ls.E(e, c)), 2))
        r0, nb0 = g['rank'], ls.nb
        g['rank'] = lambda v: z3.If(z3.And(z3.Not(old), v == w), nb0, r0(v))
    def exit(self, ls): ls.g['E'] = ls.v('tree_edges').snap()

class AldousBroder(Sampler):
    target, title = 'dppy.exotic_dpps_core:ust_sampler_aldous_broder', 'Aldous-Broder'
    loops = (FirstEntrance(),)
    roles = {'tree_edges': lambda v: isinstance(v, Arr) and v.ndim == 2, 'visited': lambda v: isinstance(v, Arr) and v.ndim == 1, 'n0': lambda v: lib.scalar_sort(v) is not None, 'nb_nodes_in_tree': lambda v: lib.scalar_sort(v) is not None}
    assumes = ('Aldous-Broder theorem: the edges of first entrance of the simple random walk from any node form a uniform spanning tree', 'RandomState.choice is uniform over the list given')
    def on_return(self, ctx, v):
        g = ctx.ghost; n, E = g['n'], g['E']
        a = self.tree(ctx, v)
        if not isinstance(a, Arr) or a.ndim != 2: raise Unsupported('array of edges expected')
        s = a.snap()
        ctx.check('n - 1 edges', z3.And(to_int(a.axes[0].n) == n - 1, to_int(a.axes[1].n) == 2))
        ctx.check('the edges are those of the first entrances', All(lambda e, c: z3.Implies(rng_in((e, n - 1), (c, 2)), s(e, c) == E(e, c)), 2))
        adj, rank = g['adj'], g['rank']
        ctx.check('a spanning tree: edge e of the graph joins node number e + 1 to an earlier one', All(lambda e: z3.Implies(rng_in((e, n - 1)), z3.And(adj(s(e, z3.IntVal(0)), s(e, z3.IntVal(1))), rank(s(e, z3.IntVal(1))) == e + 1, rank(s(e, z3.IntVal(0))) <= e, rank(s(e, z3.IntVal(0))) >= 0))))

# ---------------------------------------------------------------- Wilson
class Branches:
    """the list of branches: each one is checked when it is appended"""
    def v_method(self, ctx, name, args, kw):
        if name == 'append': ctx.ghost['branch'].append(args[0]); return None
        raise Unsupported('branches.%s' % name)
    def v_len(self, ctx): return z3.Int('nb_branches')
    def v_iter(self, ctx):
        n = z3.Int('nb_branches'); ctx.assume(n >= 0)
        L, f = z3.Function('branch_len', I, I), z3.Function('branch', I, I, I)
        ctx.assume(All(lambda i: z3.Implies(i >= 0, L(i) >= 1)))
        return n, lambda i: Lst(None, L(to_int(i)), lambda j, i=to_int(i): f(i, to_int(j)), I)
class Edges: pass
def from_iterable(ctx, args, kw):
    """all pairs of consecutive nodes of every branch"""
    n, at = lib.iterate(ctx, args[0])
    q = fresh('branch', I); ctx.assume([q >= 0, q < to_int(n)])
    m, el = lib.iterate(ctx, at(q))
    L, f = z3.Function('branch_len', I, I), z3.Function('branch', I, I, I)
    ctx.check('one edge for each pair of consecutive nodes of each branch', z3.And(to_int(m) == L(q) - 1, to_int(n) == z3.Int('nb_branches')))
    j = fresh('edge', I); ctx.assume([j >= 0, j < to_int(m)])
    e = el(j)
    ok = isinstance(e, tuple) and len(e) == 2
    ctx.check('edges join consecutive nodes', z3.And(to_int(e[0]) == f(q, j), to_int(e[1]) == f(q, j + 1)) if ok else False)
    return Edges()
def listed(ctx, args, kw):
    return args[0] if args and isinstance(args[0], Edges) else lib.EXT['builtins.list'](ctx, args, kw)

def path_of(ctx, p):
    """(length, element function)"""
    return to_int(lib.lens(p)[0]), lib.elem_snap(ctx, p)

class LoopErasure(Walk):
    def entry(self, ls):
        g, ctx = ls.g, ls.ctx
        n0 = to_int(ls.v('n0'))
        b = ls.v('branches')
        ctx.check('no branch yet', isinstance(b, Lst) and b.concrete and not b.items)
        ls.set('branches', Branches())
        g['root'] = n0
        g['rank'] = lambda v: z3.If(v == n0, z3.IntVal(0), z3.IntVal(-1))
        g['at'] = lambda o: n0
        g['pos'] = lambda v: z3.IntVal(0)
        g['branch'] = []
    def head(self, ls):
        g = ls.g
        for nm in ('rank', 'at', 'pos'):
            f = fresh_fn(nm, I, I); g[nm] = lambda v, f=f: f(v)
    def inv(self, ls):
        g, ctx = ls.g, ls.ctx
        n, adj, node, rank, at, pos, r = (g[k] for k in ('n', 'adj', 'node', 'rank', 'at', 'pos', 'root'))
        nb, n0, st = to_int(ls.v('nb_nodes_in_tree')), to_int(ls.v('n0')), ls.v('state').snap()
        p, f = path_of(ctx, ls.v('path'))
        on = nb < n             # the path matters until the tree spans the graph
        return [('nodes of the tree are counted', nb >= 1),
                ('node states', All(lambda v: z3.Implies(node(v), z3.And(st(v) >= -1, st(v) <= 1)))),
                ('the root is a node of the tree', z3.And(node(r), st(r) == 1, rank(r) == 0, at(z3.IntVal(0)) == r)),
                ('nodes of the tree are numbered', All(lambda v: z3.Implies(node(v), z3.And((st(v) == 1) == (rank(v) >= 0), rank(v) < nb, z3.Implies(rank(v) >= 0, at(rank(v)) == v))))),
                ('numbers of the nodes of the tree', All(lambda o: z3.Implies(rng_in((o, nb)), z3.And(node(at(o)), rank(at(o)) == o)))),
                ('the path is that of the current node', z3.Implies(on, z3.And(p >= 0, z3.Implies(p >= 1, n0 == f(p - 1)), z3.Implies(p == 0, z3.And(nb == 1, n0 == r)), node(n0)))),
                ('nodes of the path', All(lambda i: z3.Implies(z3.And(on, rng_in((i, p))), z3.And(node(f(i)), st(f(i)) <= 0, z3.Implies(z3.Or(i >= 1, nb == 1), st(f(i)) == 0), z3.Implies(z3.And(i == 0, nb > 1), st(f(i)) == -1))))),
                ('the path has no repeated node', All(lambda i, j: z3.Implies(z3.And(on, i >= 0, i < j, j < p), f(i) != f(j)), 2)),
                ('the path follows edges of the graph', All(lambda i: z3.Implies(z3.And(on, i >= 0, i + 1 < p), adj(f(i), f(i + 1))))),
                ('the first path leaves the root', z3.Implies(z3.And(on, nb == 1, p >= 1), adj(r, f(z3.IntVal(0))))),
                ('marked nodes are on the path', All(lambda v: z3.Implies(z3.And(on, node(v), st(v) == 0), z3.And(pos(v) >= 0, pos(v) < p, f(pos(v)) == v))))]
    def start(self, ls):
        ls.nb, ls.n0, ls.st = to_int(ls.v('nb_nodes_in_tree')), to_int(ls.v('n0')), ls.v('state').snap()
        ls.p, ls.f = path_of(ls.ctx, ls.v('path'))
        ls.g['branch'] = []
    def end(self, ls):
        g, ctx = ls.g, ls.ctx
        n, adj, node, rank, at, pos, r = (g[k] for k in ('n', 'adj', 'node', 'rank', 'at', 'pos', 'root'))
        w = self.one_move(ls, ls.n0)
        nb, n0, st = to_int(ls.v('nb_nodes_in_tree')), to_int(ls.v('n0')), ls.v('state').snap()
        p1, f1 = path_of(ctx, ls.v('path')); p, f = ls.p, ls.f
        bs = g['branch']
        ctx.check('a branch is recorded when and only when the walk meets the tree', (ls.st(w) == 1) if len(bs) == 1 else z3.And(len(bs) == 0, ls.st(w) != 1))
        # instances for the prover: members of an index list used in an assignment
        shifts = [z3.IntVal(0)] + [x + 1 for x in ls.frame.locals.values() if is_z3(x) and z3.is_int(x) and z3.is_const(x) and x.decl().name().startswith('index')]
        for A, fq, mem, _ in ctx.adv_writes:
            for x in shifts:
                ctx.assume(All(lambda v, A=A, fq=fq, mem=mem, x=x: z3.Implies(A.dom(pos(v) - x), mem(fq(pos(v) - x)))))
        if not bs:
            inpath = z3.Or(ls.st(w) == 0, z3.And(p >= 1, w == f(z3.IntVal(0))))
            k = z3.If(z3.And(p >= 1, w == f(z3.IntVal(0))), z3.IntVal(0), pos(w))
            ctx.check('the loop closed by the walk is erased, otherwise the path is extended', z3.And(p1 == z3.If(inpath, k + 1, p + 1), z3.Implies(z3.Not(inpath), f1(p) == w)))
            ctx.check('the beginning of the path is kept', All(lambda i: z3.Implies(z3.And(i >= 0, i < p, i < p1), f1(i) == f(i))))
            ctx.check('the walk moves to the node drawn', n0 == w)
            ctx.check('the tree is unchanged', nb == ls.nb)
            ctx.check('the tree is unchanged (nodes)', All(lambda v: z3.Implies(node(v), (st(v) == 1) == (ls.st(v) == 1))))
            st0 = ls.st
            g['pos'] = lambda v: z3.If(z3.And(v == w, st0(w) != 0), p, pos(v))
            return
        L, b = path_of(ctx, bs[0])
        ctx.check('a branch is the loop-erased path and the node where it meets the tree', L == p + 1)
        ctx.check('a branch is the loop-erased path and the node where it meets the tree (nodes)', z3.And(z3.Implies(ls.nb == 1, b(z3.IntVal(0)) == w), z3.Implies(ls.nb != 1, b(p) == w)))
        ctx.check('the path is recorded in order', All(lambda i: z3.Implies(rng_in((i, p)), z3.If(ls.nb == 1, b(i + 1), b(i)) == f(i))))
        ctx.check('branches follow edges of the graph', All(lambda i: z3.Implies(rng_in((i, p)), adj(b(i), b(i + 1)))))
        ctx.check('the nodes of the path join the tree, no other', All(lambda v: z3.Implies(node(v), (st(v) == 1) == z3.Or(ls.st(v) == 1, ls.st(v) == 0, z3.And(p >= 1, v == f(z3.IntVal(0)))))))
        ctx.check('the nodes joining the tree are counted', nb == ls.nb + p)
        # number the new nodes (the path has distinct nodes outside the tree)
        rk, an = fresh_fn('rank', I, I), fresh_fn('at', I, I); nb0, st0 = ls.nb, ls.st
        ctx.assume(All(lambda i: z3.Implies(rng_in((i, p)), rk(f(i)) == nb0 + i)))
        ctx.assume(All(lambda v: z3.Implies(z3.And(node(v), z3.Not(z3.Or(st0(v) == 0, z3.And(p >= 1, v == f(z3.IntVal(0)))))), rk(v) == rank(v))))
        ctx.assume(All(lambda o: z3.Implies(z3.And(o >= 0), an(o) == z3.If(o < nb0, at(o), f(o - nb0)))))
        g['rank'], g['at'] = (lambda v: rk(v)), (lambda o: an(o))
        # pigeonhole: fewer than n numbered nodes leave some node outside the tree
        w2 = fresh('outside', I)
        ctx.assume(z3.Or(nb >= n, z3.And(node(w2), st(w2) != 1)))
    def exit(self, ls): pass

class Wilson(Sampler):
    target, title = 'dppy.exotic_dpps_core:ust_sampler_wilson', 'Wilson'
    loops = (LoopErasure(),)
    roles = {'state': lambda v: isinstance(v, Arr) and v.ndim == 1, 'path': lambda v: isinstance(v, Lst), 'branches': lambda v: isinstance(v, (Lst, Branches)), 'n0': lambda v: lib.scalar_sort(v) is not None, 'nb_nodes_in_tree': lambda v: lib.scalar_sort(v) is not None}
    externals = dict(Sampler.externals, **{'itertools.chain.from_iterable': from_iterable, 'builtins.list': listed})
    assumes = ("Wilson's theorem: branches of loop-erased simple random walks to the current tree form a uniform spanning tree, whatever the starting nodes",
               'the first branch, walked from the root back to the root, has the law of a branch from its last node to the root (reversibility of loop erasure)',
               'pigeonhole: n distinct nodes of the tree are all the nodes', 'RandomState.choice is uniform over the list given')
    def on_count(self, ctx, c, n, mask):
        ctx.assume(All(lambda i: z3.Implies(z3.And(rng_in((i, to_int(n))), mask(i)), c >= 1)))
    def on_return(self, ctx, v):
        e = self.tree(ctx, v)
        ctx.check('the edges of all the branches, and no other', isinstance(e, Edges))

# ---------------------------------------------------------------- the class
class GraphIn:
    """the graph of a UST: nodes 0..n-1, connected; its edges, its neighbours"""
    def v_method(self, ctx, name, args, kw):
        g = ctx.ghost
        if kw: raise Unsupported('graph.%s with options' % name)
        if name in ('number_of_nodes', 'order') and not args: return g['n']
        if name in ('number_of_edges', 'size') and not args: return g['m']
        if name == 'nodes' and not args: return Listing(g['n'], lambda i: to_int(i))
        if name == 'edges' and not args: return EdgeList()
        if name in ('neighbors', 'adj') and len(args) == 1:
            ctx.check('node index in range', g['node'](to_int(args[0])), kind='definedness'); return NeighborsOf(to_int(args[0]))
        raise Unsupported('graph.%s' % name)
class Listing:
    def __init__(self, n, at): self.n, self.at = n, at
    def v_iter(self, ctx): return self.n, self.at
    def v_len(self, ctx): return self.n
class EdgeList(Listing):
    """the edges of the graph, in the order of graph.edges(); edge number e is represented by the term edge(e)"""
    ro = True
    def __init__(self): pass
    n = property(lambda self: z3.Int('m'))
    def at(self, i): return z3.Function('edge', I, I)(to_int(i))
    def v_iter(self, ctx): return z3.Int('m'), self.at
    def v_list(self, ctx): return self
    def v_getitem(self, ctx, k):
        ctx.check('edge index in range', rng_in((to_int(k), z3.Int('m'))), kind='definedness')
        return self.at(k)
NeighborsOf.v_list = lambda self, ctx: self
NeighborsOf.v_subst = lambda self, s, i: NeighborsOf(z3.substitute(self.v, (s, i)))
class SparseM:
    """scipy sparse matrix with known entries"""
    def __init__(self, a): self.a = a
    def v_getitem(self, ctx, k): return SparseM(lib.getitem(ctx, self.a, k))
    def v_getattr(self, ctx, name):
        if name == 'T': return SparseM(lib.transpose(ctx, self.a))
        if name == 'shape': return tuple(x.n for x in self.a.axes)
        return BoundExt(self, name)
    def v_method(self, ctx, name, args, kw):
        if name in ('toarray', 'todense') and not args and not kw: return ctx.call(lib.getattr_(ctx, self.a, 'copy'), [], {})
        if name == 'transpose' and not args and not kw: return SparseM(lib.transpose(ctx, self.a))
        raise Unsupported('sparse.%s' % name)
class UST(FnContract):
    prop, must_reach = 'C11', ('pre', 'return')
    assumes = ('transfer current theorem (Burton and Pemantle): the edges of a uniform spanning tree are the projection DPP onto the row space of the oriented incidence matrix',
               'networkx: edges(), neighbors(v), is_connected, incidence_matrix(oriented=True) with columns in the order of edges()',
               'the incidence matrix of a connected graph without one row has full row rank; scipy.linalg.qr(mode=economic) returns an orthonormal basis of its row space',
               'list of neighbours: that of the constructor (a user does not modify attributes of the object)')
    def world(self, ctx):
        g = ctx.ghost
        graph(ctx)
        m = z3.Int('m'); ctx.assume(m >= g['n'] - 1)
        inc, Kst = z3.Function('inc', I, I, R), z3.Function('Kst', I, I, R); SYMMETRIC['Kst'] = (0, 1)
        g.update(m=m, inc=inc, K=Kst, graph=GraphIn(), bases=[], nx=Ext('networkx'))
    def basis(self, ctx):
        """an orthonormal basis of the row space of the incidence matrix"""
        g = ctx.ghost; m, r, K = g['m'], g['n'] - 1, g['K']
        V = fresh_fn('V', I, I, R)
        ctx.assume(All(lambda e, f: z3.Implies(rng_in((e, m), (f, m)), K(e, f) == mk_sum(r, lambda a: V(e, a) * V(f, a))), 2, name='projection onto the row space'))
        a, _ = matrix(ctx, 'basis', m, r, fn=V); g['bases'].append((a, V))
        return a
    def instance(self, ctx, state):
        g = ctx.ghost
        mod = ctx.repo.module('dppy.exotic_dpps')
        o = Obj(ClassVal(mod, mod.defs['UST'], 'dppy.exotic_dpps:UST'), {})
        V = self.basis(ctx) if state else None
        K = None
        if state == 2: K, _ = matrix(ctx, 'kernel', g['m'], g['m'], fn=lambda e, f: g['K'](e, f))
        samples = Lst(None, z3.Int('len_samples'), None, None); ctx.assume(samples.n >= 0)
        o.attrs.update(nx=g['nx'], graph=g['graph'], nodes=Listing(g['n'], lambda i: to_int(i)), nb_nodes=g['n'], edges=EdgeList(), nb_edges=g['m'], edge_labels=Opaque('dict'), neighbors=Neighbors(),
            sampling_mode='Wilson', _sampling_modes={'markov-chain': Lst(['Wilson', 'Aldous-Broder']), 'spectral-method': Lst(['GS']), 'projection-K-kernel': Lst(['Schur', 'Chol'])},
            list_of_samples=samples, kernel=K, kernel_eig_vecs=V)
        g.update(self=o, samples=samples, appended=[], frame={k: o.attrs[k] for k in ('graph', 'edges', 'neighbors')})
        return o
    def qr(ctx, args, kw):
        self, g = ctx.contract, ctx.ghost
        if len(args) != 1 or set(kw) != {'mode'} or kw['mode'] not in ('economic', 'reduced'): raise Unsupported('qr')
        a, n, m, inc = args[0], g['n'], g['m'], g['inc']
        if not isinstance(a, Arr) or a.ndim != 2: raise Unsupported('qr of %r' % (a,))
        s = a.snap()
        ctx.check('the basis is computed from the incidence matrix without one row', z3.And(to_int(a.axes[0].n) == m, to_int(a.axes[1].n) == n - 1))
        goal = lambda d: All(lambda e, v: z3.Implies(rng_in((e, m), (v, n - 1)), s(e, v) == inc(v + d, e)), 2)
        ctx.check('the basis is computed from the incidence matrix', goal(1 if ctx.prove(goal(1), timeout=2000) else 0))
        return self.basis(ctx), Opaque('R factor')
    def incidence(ctx, args, kw):
        g = ctx.ghost
        kw = dict(kw)
        ok = len(args) == 1 and args[0] is g['graph'] and kw.pop('oriented', False) is True and isinstance(kw.pop('edgelist', EdgeList()), EdgeList) and not kw
        ctx.check('oriented incidence matrix of the graph', bool(ok))
        if not ok: raise PathEnd()
        return SparseM(matrix(ctx, 'incidence', g['n'], g['m'], fn=lambda v, e: g['inc'](v, e))[0])
    def connected(ctx, args, kw):
        if len(args) != 1 or args[0] is not ctx.ghost['graph']: raise Unsupported('is_connected of another graph')
        return ctx.contract.scenario != 'not connected'
    externals = {'networkx.Graph': new_graph, 'networkx.is_connected': connected, 'networkx.incidence_matrix': incidence, 'scipy.linalg.qr': qr, 'numpy.linalg.qr': qr}
    del qr, incidence, connected
    def is_basis(self, ctx, V):
        g = ctx.ghost; m, r = g['m'], g['n'] - 1
        if not isinstance(V, Arr) or V.ndim != 2: return False
        s = V.snap()
        for a, F in g['bases']:
            if a is V: return True
            if ctx.entailed(z3.And(to_int(V.axes[0].n) == m, to_int(V.axes[1].n) == r)) is True and ctx.prove(All(lambda e, q: z3.Implies(rng_in((e, m), (q, r)), s(e, q) == F(e, q)), 2), timeout=2000): return True
        return False
    def invariant(self, ctx, o):
        g, a = ctx.ghost, o.attrs
        for k, v in g.get('frame', {}).items(): ctx.check('%s is left as it was' % k, a.get(k) is v)
        V, K = a.get('kernel_eig_vecs'), a.get('kernel')
        ctx.check('the cached eigenvectors are a basis of the row space of the incidence matrix', V is None or self.is_basis(ctx, V))
        if K is not None: self.is_kernel(ctx, 'the cached kernel is the transfer current kernel', K)
    def is_kernel(self, ctx, what, a):
        g = ctx.ghost; m = g['m']
        if not isinstance(a, Arr) or a.ndim != 2: raise Unsupported('kernel matrix expected')
        s = a.snap()
        ctx.check(what + ' (shape)', z3.And(to_int(a.axes[0].n) == m, to_int(a.axes[1].n) == m))
        ctx.check(what, All(lambda e, f: z3.Implies(rng_in((e, m), (f, m)), s(e, f) == g['K'](e, f)), 2))
    def on_append(self, ctx, o, v):
        ctx.ghost['appended'].append((o, v)); return None

class UstInit(UST):
    target, title, must_reach = 'dppy.exotic_dpps:UST.__init__', 'UST: constructor', ('pre',)
    scenarios = ('connected', 'not connected')
    def setup(self, ctx):
        self.world(ctx); mod = ctx.repo.module('dppy.exotic_dpps')
        o = Obj(ClassVal(mod, mod.defs['UST'], 'dppy.exotic_dpps:UST'), {})
        ctx.ghost.update(self=o, appended=[])
        return [o, ctx.ghost['graph']], {}
    def on_raise(self, ctx, e):
        if e.kind == 'ValueError' and self.scenario == 'not connected': ctx.check('refused with ValueError', True); return
        Contract.on_raise(self, ctx, e)
    def on_return(self, ctx, v):
        g = ctx.ghost; a = g['self'].attrs
        ctx.check('graphs that are not connected are refused', self.scenario == 'connected')
        ctx.check('the graph is recorded', a.get('graph') is g['graph'])
        ctx.check('the edges are those of the graph', isinstance(a.get('edges'), EdgeList))
        l, i = a.get('neighbors'), fresh('v', I); ctx.assume(g['node'](i))
        if not isinstance(l, Lst) or l.concrete: raise Unsupported('neighbour lists')
        e = l.f(i)
        ctx.check('one list of neighbours per node', to_int(l.n) == g['n'])
        ctx.check('the neighbours of each node are listed', e.v == i if isinstance(e, NeighborsOf) else False)
        ctx.check('no kernel is cached', a.get('kernel') is None and a.get('kernel_eig_vecs') is None)
        s = a.get('list_of_samples')
        ctx.check('no sample is recorded', isinstance(s, Lst) and s.concrete and not s.items)

class UstKernel(UST):
    target, title = 'dppy.exotic_dpps:UST.compute_kernel', 'UST: transfer current kernel'
    scenarios = (0, 1, 2)
    def setup(self, ctx):
        self.world(ctx); return [self.instance(ctx, self.scenario)], {}
    def on_return(self, ctx, v):
        o = ctx.ghost['self']; self.invariant(ctx, o)
        ctx.check('the kernel is computed', o.attrs.get('kernel') is not None)
        ctx.check('no sample is recorded', not ctx.ghost['appended'])
class UstEigVecs(UstKernel):
    target, title = 'dppy.exotic_dpps:UST.compute_kernel_eig_vecs', 'UST: eigenvectors of the transfer current kernel'
    def on_return(self, ctx, v):
        o = ctx.ghost['self']; self.invariant(ctx, o)
        ctx.check('the eigenvectors are computed', o.attrs.get('kernel_eig_vecs') is not None)
        ctx.check('no sample is recorded', not ctx.ghost['appended'])

class Tree(Graph):
    """the graph returned by a walk sampler (its contract is proved above)"""
class UstSample(UST):
    target, title = 'dppy.exotic_dpps:UST.sample', 'UST: sampling'
    scenarios = tuple(itertools.product(('Wilson', 'Aldous-Broder', 'GS', 'Schur', 'Chol', 'something else'), (0, 1, 2)))
    must_reach = ('pre',)
    def setup(self, ctx):
        self.world(ctx); self.mode, state = self.scenario
        o = self.instance(ctx, state)
        ctx.ghost['rng'] = rng = Rng()
        return [o], dict(mode=self.mode, random_state=rng)
    def walk(mode):
        def f(ctx, loc):
            self, g = ctx.contract, ctx.ghost
            ctx.check('the walk sampler is that of the mode', self.mode == mode)
            ctx.check('the walk runs on the graph', loc['list_of_neighbors'] is g['self'].attrs.get('neighbors') and isinstance(loc['list_of_neighbors'], Neighbors))
            ctx.check('the sampler draws from the generator given', loc['random_state'] is g['rng'])
            g['tree'] = Tree(); return g['tree']
        return f
    def items(self, ctx, loc, allowed):
        g = ctx.ghost
        ctx.check('the mode is passed to the sampler', loc['mode'] == self.mode and self.mode in allowed)
        ctx.check('the sampler draws from the generator given', loc['random_state'] is g['rng'])
        r = g['n'] - 1; size = loc.get('size')
        ctx.check('as many edges as a spanning tree', size is None or z3.simplify(to_int(size) == r))
        f = fresh_fn('item', I, I); ctx.assume(All(lambda i: z3.Implies(rng_in((i, r)), rng_in((f(i), g['m'])))))
        g['items'] = f
        a, _ = vector(ctx, 'items', r, fn=f, sort=I)
        return a
    def proj_eig(ctx, loc):
        self = ctx.contract
        ctx.check('the sampler gets a basis of the row space of the incidence matrix', self.is_basis(ctx, loc['eig_vecs']))
        return self.items(ctx, loc, ('GS', 'GS_bis', 'KuTa12'))
    def proj_kernel(ctx, loc):
        self = ctx.contract
        self.is_kernel(ctx, 'the sampler gets the transfer current kernel', loc['kernel'])
        return self.items(ctx, loc, ('GS', 'Chol', 'Schur'))
    uses = dict(FnContract.uses, **{'dppy.exotic_dpps_core:ust_sampler_wilson': walk('Wilson'), 'dppy.exotic_dpps_core:ust_sampler_aldous_broder': walk('Aldous-Broder'),
        'dppy.exact_sampling:proj_dpp_sampler_eig': proj_eig, 'dppy.exact_sampling:proj_dpp_sampler_kernel': proj_kernel})
    del walk, proj_eig, proj_kernel
    def on_return(self, ctx, v):
        g = ctx.ghost; o = g['self']
        if self.mode == 'something else': ctx.check('unknown modes are refused', False); return
        self.invariant(ctx, o)
        ap = g['appended']
        ok = len(ap) == 1 and ap[0][0] is g['samples'] and o.attrs.get('list_of_samples') is g['samples']
        ctx.check('exactly one sample is recorded', ok)
        if not ok: return
        t = ap[0][1]
        if self.mode in ('Wilson', 'Aldous-Broder'):
            ctx.check('the tree sampled is recorded', t is g.get('tree') and not t.edges); return
        if not isinstance(t, Graph): ctx.check('a graph is recorded', False); return
        ctx.check('the edges sampled are recorded', len(t.edges) == 1 and 'items' in g)
        if len(t.edges) != 1: return
        n, at = lib.iterate(ctx, t.edges[0]); f = g['items']; e = z3.Function('edge', I, I)
        ctx.check('as many edges as sampled', to_int(n) == g['n'] - 1)
        ctx.check('the edges recorded are those sampled', All(lambda i: z3.Implies(rng_in((i, g['n'] - 1)), at(i) == e(f(i)))))
    def on_raise(self, ctx, e):
        if e.kind == 'ValueError' and self.mode == 'something else':
            ctx.check('nothing is recorded when the call is refused', not ctx.ghost['appended']); self.invariant(ctx, ctx.ghost['self']); return
        Contract.on_raise(self, ctx, e)

class UstFlush(UST):
    target, title = 'dppy.exotic_dpps:UST.flush_samples', 'UST: flushing'
    scenarios = (0, 1, 2)
    def setup(self, ctx):
        self.world(ctx); return [self.instance(ctx, self.scenario)], {}
    def on_return(self, ctx, v):
        o = ctx.ghost['self']; self.invariant(ctx, o)
        l = o.attrs.get('list_of_samples')
        ctx.check('the list of samples is emptied', isinstance(l, Lst) and l.concrete and not l.items)

CONTRACTS = [AldousBroder, Wilson, UstInit, UstKernel, UstEigVecs, UstSample, UstFlush]
