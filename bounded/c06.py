from .lib import *
def run(h):
    from dppy import mcmc_sampling as mc
    from dppy.finite_dpps import FiniteDPP
    r = h.rng('k')
    def check(ch, L, mode, nb, init, exact_len=True):
        n = len(L)
        need(isinstance(ch, list), 'the chain is not a list')
        if exact_len: need(len(ch) == nb, 'chain of %d states, nb_iter=%d', len(ch), nb)
        need(1 <= len(ch) <= nb, 'chain of %d states', len(ch))
        if init is not None: need([int(x) for x in ch[0]] == list(init), 'the chain starts at %s instead of %s', ch[0], init)
        for a in ch:
            need(isinstance(a, list), 'state %r is not a list', a)
            distinct(a, n)
            need(minor(L, a) > 1e-14, 'state %s has determinant %.3g', a, minor(L, a))
        for a, b in zip(ch[:-1], ch[1:]):
            d = len(set(a) ^ set(b))
            ok = d == 0 or (d == 1 and mode != 'E') or (d == 2 and len(a) == len(b) and mode != 'AD')
            need(ok, 'mode %s moved from %s to %s', mode, a, b)
    conf = [(1, 1), (3, 3), (4, 3), (5, 5), (6, 3), (8, 8), (10, 6)]
    for n, rk in conf:
        L = psd(r, n, rk)
        for mode in ('AED', 'AD', 'E'):
            for nb in (1, 2, 40) + (() if h.quick else (300,)):
                for seed in range(2 if h.quick else 6):
                    for start in ('none', 'given', 'full', 'empty'):
                        if start == 'full' and rk < n: continue
                        init = {'none': None, 'given': list(range(min(2, rk))), 'full': list(range(n))[::-1], 'empty': []}[start]
                        def go(mode=mode, L=L, nb=nb, seed=seed, init=init, n=n, rk=rk):
                            size = None
                            if mode == 'E': size = len(init) if init is not None else max(1, rk // 2)
                            orig = None if init is None else list(init)
                            L0 = L.copy()
                            ch = mc.dpp_sampler_mcmc(L, mode, s_init=init, nb_iter=nb, size=size, random_state=seed)
                            need(init == orig, 'the initial state of the caller was modified')
                            need(np.array_equal(L, L0), 'the kernel was modified')
                            check(ch, L, mode, nb, orig)
                            if mode == 'E': need(all(len(s) == size for s in ch), 'an exchange chain changed the cardinality')
                        h.case('run/%s n=%d nb=%d start=%s seed=%d' % (mode, n, nb, start, seed), go, dict(L=L, mode=mode, s_init=init, nb_iter=nb, seed=seed))
    # all outcomes of short runs
    L = psd(r, 3)
    for mode in ('AED', 'AD', 'E'):
        for init in ([], [1], [2, 0], [0, 1, 2]):
            def go(mode=mode, init=init):
                def f(rng):
                    s = list(init)
                    ch = mc.dpp_sampler_mcmc(L, mode, s_init=s, nb_iter=3, random_state=rng)
                    need(s == init, 'the initial state of the caller was modified')
                    check(ch, L, mode, 3, init)
                    return tuple(map(tuple, ch))
                law, _, m = enumerate_law(f); h.stats['paths'] += m
            h.case('all/%s from %s' % (mode, init), go, dict(L=L, s_init=init))
    # initial states: positive determinant, requested size
    for n, rk in ((2, 2), (3, 2), (4, 4), (6, 2)):
        L = psd(r, n, rk)
        for seed in range(20 if h.quick else 100):
            def go(L=L, seed=seed, rk=rk):
                for k in range(1, rk + 1):
                    s = mc.initialize_AD_and_E_sampler(L, k, random_state=seed)
                    distinct(s, len(L)); need(len(s) == k and minor(L, s) > 1e-12, 'initial state %s for size %d', s, k)
                for f in (mc.initialize_AED_sampler, mc.initialize_AD_and_E_sampler):
                    s = f(L, random_state=seed)
                    distinct(s, len(L)); need(minor(L, list(s)) > 1e-12, 'initial state %s of zero determinant', s)
            h.case('init/n=%d rank=%d seed=%d' % (n, rk, seed), go, dict(L=L, seed=seed))
    h.raises('init/impossible size', ValueError, lambda: mc.initialize_AD_and_E_sampler(psd(h.rng('x'), 5, 2), 4, random_state=0))
    h.raises('init/zero kernel', ValueError, lambda: mc.initialize_AD_and_E_sampler(np.zeros((3, 3)), 2, random_state=0))
    # time limit with a scripted clock
    class Clock:
        def __init__(self, steps): self.steps, self.i, self.reads = steps, 0, []
        def time(self):
            t = sum(self.steps[:self.i]) if self.i <= len(self.steps) else sum(self.steps) + (self.i - len(self.steps)) * self.steps[-1]
            self.i += 1; self.reads.append(100.0 + t); return self.reads[-1]
        __call__ = time
        def __getattr__(self, k):
            if k in ('perf_counter', 'monotonic', 'process_time'): return self.time
            raise AttributeError(k)
    L = psd(r, 5)
    for mode in ('AED', 'AD', 'E'):
        for steps in ([1.0], [0.25], [0.0, 0.0, 3.0], [5.0], [0.5, 0.5, 0.5, 0.5]):
            for T in (0.3, 1, 2.0, 4):
                for nb in (1, 2, 6, 30):
                    def go(mode=mode, steps=steps, T=T, nb=nb):
                        clock = Clock(steps)
                        old = mc.time
                        mc.time = clock
                        try: ch = mc.dpp_sampler_mcmc(L, mode, s_init=[1, 3], nb_iter=nb, T_max=T, size=2, random_state=7)
                        finally: mc.time = old
                        check(ch, L, mode, nb, [1, 3], exact_len=False)
                        if len(ch) < nb:
                            need(len(clock.reads) >= 2, 'stopped without reading the clock')
                            need(clock.reads[-1] - clock.reads[0] > T, 'stopped after %.3g s, the limit is %.3g s', clock.reads[-1] - clock.reads[0], T)
                    h.case('time/%s %s T=%s nb=%d' % (mode, steps[:3], T, nb), go, dict(steps=steps, T_max=T, nb_iter=nb))
