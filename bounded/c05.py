from .lib import *
def kernels(r, quick):
    out = []
    for n, rk in [(1, 1), (2, 2), (3, 3), (3, 2), (4, 4), (4, 2), (5, 3)] + ([] if quick else [(5, 5), (6, 4), (6, 2)]):
        out.append(('psd n=%d rank=%d' % (n, rk), psd(r, n, rk)))
    K = proj(r, 4, 2); out.append(('projection', K))
    out.append(('diagonal', np.diag([0.5, 2.0, 1.0, 0.0])))
    out.append(('small scale', 1e-2 * psd(r, 3)))
    return out
def states(L, admissible):
    n = len(L)
    return [s for s in subsets(n) if admissible(s) and minor(L, list(s)) > 1e-7]
def run(h):
    from dppy import mcmc_sampling as mc
    from dppy.finite_dpps import FiniteDPP
    r = h.rng('kernels')
    def step(mode, L, s0, viaclass):
        def f(rng):
            init = list(s0)
            L0 = L.copy()
            if viaclass:
                d = FiniteDPP('likelihood', L=L)
                kw = dict(s_init=init, nb_iter=2, random_state=rng)
                out = d.sample_mcmc_k_dpp(len(s0), **kw) if mode == 'E' else d.sample_mcmc(mode, **kw)
                ch = d.list_of_samples[-1]
                need(list(out) == list(ch[-1]), 'the returned state is not the last state of the chain')
            else: ch = mc.dpp_sampler_mcmc(L, mode, s_init=init, nb_iter=2, random_state=rng, size=len(s0))
            need(len(ch) == 2 and canon(ch[0]) == canon(s0), 'chain %s from initial state %s', ch, s0)
            need(np.array_equal(L, L0), 'the kernel was modified'); need(init == list(s0), 'the initial state was modified')
            distinct(ch[1], len(L))
            return canon(ch[1])
        return f
    for name, L in kernels(r, h.quick):
        n = len(L)
        for mode in ('AED', 'AD', 'E'):
            for viaclass in (False, True):
                if viaclass and n > 3: continue
                groups = [states(L, lambda s: True)] if mode != 'E' else [states(L, lambda s, k=k: len(s) == k) for k in range(0, n + 1)]
                for gi, sts in enumerate(groups):
                    if not sts: continue
                    def go(mode=mode, L=L, sts=sts, viaclass=viaclass):
                        T = {}
                        for s in sts:
                            orders = [s] if h.quick or len(s) < 2 else [s, s[::-1]]
                            for o in orders:
                                law, trunc, m = enumerate_law(step(mode, L, o, viaclass))
                                h.stats['paths'] += m
                                if s in T:
                                    for q in set(law) | set(T[s]): need(abs(law.get(q, 0) - T[s].get(q, 0)) < 1e-9, 'the transition from %s depends on the order of the list', s)
                                T[s] = law
                        for s in sts:
                            need(abs(sum(T[s].values()) - 1) < 1e-9, 'transition probabilities do not sum to one')
                            for q, p in T[s].items():
                                if p < 1e-12: continue
                                ws, wq = minor(L, list(s)), minor(L, list(q))
                                need(mode != 'E' or len(q) == len(s), 'the exchange chain moved from %s to %s', s, q)
                                need(wq > -1e-12 and p <= wq / ws * 1e9 + 1e-9, 'moves from %s to %s of zero determinant', s, q)
                                if q in T:
                                    a, b = ws * p, wq * T[q].get(s, 0.0)
                                    need(abs(a - b) <= 1e-7 * max(a, b) + 1e-12, 'detailed balance fails between %s and %s: det(L_S) T(S->S\') = %.10g, det(L_S\') T(S\'->S) = %.10g', s, q, a, b)
                        # documented moves are possible
                        if not viaclass and n > 1:
                            for s in sts:
                                for q in sts:
                                    d = len(set(s) ^ set(q))
                                    reach = (d == 1 and mode in ('AED', 'AD')) or (d == 2 and len(s) == len(q) and mode in ('AED', 'E'))
                                    if reach: need(T[s].get(q, 0) > 1e-12 * minor(L, list(q)) / minor(L, list(s)), 'the move %s -> %s never happens', s, q)
                                need(T[s].get(s, 0) > 1e-9 or mode == 'AED', 'the chain never stays in %s', s)
                    h.case('balance/%s %s k=%s%s' % (mode, name, gi if mode == 'E' else '-', ' class' if viaclass else ''), go, dict(L=L, mode=mode))
    # two steps in a row use the updated state and determinant
    for mode in ('AED', 'AD', 'E'):
        L = psd(h.rng('two'), 3)
        def two(mode=mode, L=L):
            sts = states(L, lambda s: True) if mode != 'E' else states(L, lambda s: len(s) == 2)
            T = {s: enumerate_law(step(mode, L, s, False))[0] for s in sts}
            for s in sts:
                def f(rng):
                    ch = mc.dpp_sampler_mcmc(L, mode, s_init=list(s), nb_iter=3, random_state=rng)
                    need(len(ch) == 3, 'chain of length %d', len(ch))
                    return canon(ch[1]), canon(ch[2])
                law, _, m = enumerate_law(f); h.stats['paths'] += m
                for (a, b), p in law.items():
                    need(abs(p - T[s].get(a, 0) * T[a].get(b, 0)) < 1e-9, 'two steps %s -> %s -> %s have probability %.10g, the one step transitions give %.10g', s, a, b, p, T[s].get(a, 0) * T[a].get(b, 0))
        h.case('markov/%s' % mode, two, dict(L=L, mode=mode))
