from .lib import *
from .fin import *
import copy, warnings
MODES = ('GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur')
def run(h):
    from dppy.finite_dpps import FiniteDPP
    r = h.rng('p')
    n = 4
    hist = {'fresh': [], 'GS': [('e', 'GS')], 'Chol': [('e', 'Chol')], 'k1': [('k', 1, 'GS')], 'k2': [('k', 2, 'GS')], 'k3,k2': [('k', 3, 'GS'), ('k', 2, 'GS')], 'K': [('K',)], 'L': [('L',)],
            'L,GS': [('L',), ('e', 'GS')], 'k2,flush,GS': [('k', 2, 'GS'), ('f',), ('e', 'GS')], 'mcmc': [('m', 'E')], 'K,k1,L': [('K',), ('k', 1, 'GS'), ('L',)], 'GS,k1,flush': [('e', 'GS'), ('k', 1, 'GS'), ('f',)],
            'k1,GS,k3': [('k', 1, 'GS'), ('e', 'GS_bis'), ('k', 3, 'GS')]}
    if not h.quick:
        base = [('e', 'GS'), ('e', 'Chol'), ('k', 1, 'GS'), ('k', 3, 'KuTa12'), ('K',), ('L',), ('m', 'E'), ('m', 'AED')]
        for a in base:
            for b in base: hist['%s;%s' % (a, b)] = [a, b]
    for which in ALL:
        kt, pr, ps, K, L = params(r, n, which)
        rank = int(round(np.trace(K)))
        def do(d, op, seed=11):
            try:
                if op[0] == 'e': d.sample_exact(op[1], random_state=seed)
                elif op[0] == 'k': d.sample_exact_k_dpp(rank if L is None else op[1], op[2], random_state=seed)
                elif op[0] == 'K': d.compute_K()
                elif op[0] == 'L': d.compute_L()
                elif op[0] == 'f': d.flush_samples()
                elif op[0] == 'm': d.sample_mcmc(op[1], size=rank if L is None else 2, random_state=seed, nb_iter=3)
            except ValueError: pass
        fullL = L_law(L) if L is not None else K_law(K)
        Kl = K_law(K)
        fullL = Kl
        lawk = {}
        lrank = np.linalg.matrix_rank(L) if L is not None else rank
        for hn, ops in hist.items():
            def obj():
                d = FiniteDPP(kt, pr, **copy.deepcopy(ps))
                for o in ops: do(d, o)
                return d
            for mode in MODES:
                if which == 'L proj' and False: continue
                sup = not (mode == 'Schur' and not (kt == 'correlation' and pr))
                if not sup:
                    if hn == 'fresh': h.raises('refusal/%s %s' % (which, mode), ValueError, lambda: obj().sample_exact(mode, random_state=1))
                    continue
                if mode in ('GS_bis', 'KuTa12') and 'K proj' == which and hn in ('fresh', 'K', 'L', 'mcmc', 'Chol'):
                    continue     # refused or not depending on the representation: see k-DPP note
                if mode != 'GS' and h.quick and hn not in ('fresh', 'GS', 'k2', 'K', 'L,GS'): continue
                base = [None]
                def f(rng, mode=mode):
                    if base[0] is None: base[0] = obj()
                    d = copy.deepcopy(base[0]); m = len(d.list_of_samples); old = copy.deepcopy(d.list_of_samples)
                    s = d.sample_exact(mode, random_state=rng)
                    need(len(d.list_of_samples) == m + 1, '%d entries appended to list_of_samples', len(d.list_of_samples) - m)
                    need(d.list_of_samples[-1] is s or list(d.list_of_samples[-1]) == list(s), 'the recorded sample is not the returned one')
                    need(d.list_of_samples[:-1] == old, 'recorded samples changed')
                    distinct(s, n)
                    return canon(s)
                if mode in ('GS_bis', 'KuTa12') and which == 'K proj':
                    f0 = f
                    def f(rng, f0=f0):
                        try: return f0(rng)
                        except ValueError: return 'refused'
                    def either(f=f, mode=mode):
                        law, _, m = enumerate_law(f); h.stats['paths'] += m
                        if law.get('refused', 0) > 1 - 1e-9: return
                        for o in set(law) | set(Kl): need(abs(law.get(o, 0) - Kl.get(o, 0)) < 1e-7, 'outcome %s has probability %.9g, expected %.9g', o, law.get(o, 0), Kl.get(o, 0))
                    h.case('exact/%s %s after %s' % (which, mode, hn), either, dict(which=which, mode=mode, history=hn)); continue
                h.law('exact/%s %s after %s' % (which, mode, hn), f, Kl, dict(which=which, mode=mode, history=hn, params={k: v for k, v in ps.items()}), tol=1e-7)
            ks = [rank] if L is None else [k for k in (1, 2, 3) if k <= lrank]
            if which in ('L proj', 'L_eig_dec proj'): ks = [k for k in ks if k <= np.linalg.matrix_rank(L)]
            for k in ks:
                if h.quick and k == 3 and hn not in ('fresh', 'k2', 'GS'): continue
                if k not in lawk: lawk[k] = L_law(L, k) if L is not None else k_law(K, k)
                for mode in (('GS',) if hn not in ('fresh', 'GS') else ('GS', 'GS_bis', 'KuTa12')):
                    if which in ('K proj', 'L proj') and mode != 'GS': continue
                    base = [None]
                    def f(rng, k=k, mode=mode):
                        if base[0] is None: base[0] = obj()
                        d = copy.deepcopy(base[0]); m = len(d.list_of_samples)
                        s = d.sample_exact_k_dpp(k, mode, random_state=rng)
                        need(len(d.list_of_samples) == m + 1 and list(d.list_of_samples[-1]) == list(s), 'the sample was not appended once')
                        need(len(s) == k, '%d items, k=%d', len(s), k); distinct(s, n)
                        return canon(s)
                    h.law('k-dpp/%s k=%d %s after %s' % (which, k, mode, hn), f, lawk[k], dict(which=which, k=k, mode=mode, history=hn), tol=1e-7)
            # MCMC: one step of the chain from a fixed state has the law of a chain for the right kernel
            def mc(hn=hn):
                d = obj(); m = len(d.list_of_samples)
                for mode in ('AED', 'AD', 'E') if L is not None else ('E',):
                    ker = L if L is not None else K
                    k0 = 2 if L is not None else rank
                    st = max(subsets(n, k0), key=lambda s: minor(ker, list(s)))
                    if minor(ker, list(st)) < 1e-9: continue
                    def f(rng):
                        e = copy.deepcopy(d)
                        s = e.sample_mcmc(mode, s_init=list(st), nb_iter=2, size=k0, random_state=rng)
                        need(len(e.list_of_samples) == m + 1, 'the chain was not appended once')
                        need(list(e.list_of_samples[-1][-1]) == list(s) and canon(e.list_of_samples[-1][0]) == st, 'chain %s', e.list_of_samples[-1])
                        return canon(s)
                    law, _, c = enumerate_law(f); h.stats['paths'] += c
                    # the reference: the same chain on the reference kernel
                    from dppy.mcmc_sampling import dpp_sampler_mcmc
                    ref, _, _ = enumerate_law(lambda rng: canon(dpp_sampler_mcmc(ker, mode, s_init=list(st), nb_iter=2, random_state=rng, size=k0)[-1]))
                    for o in set(law) | set(ref): need(abs(law.get(o, 0) - ref.get(o, 0)) < 1e-6, 'mode %s after %s: moves from %s to %s with probability %.8g, the chain for the kernel of the object does so with probability %.8g', mode, hn, st, o, law.get(o, 0), ref.get(o, 0))
                if L is not None:
                    e = copy.deepcopy(d); s = e.sample_mcmc_k_dpp(2 if lrank >= 2 else 1, random_state=5, nb_iter=5)
                    need(all(len(x) == (2 if lrank >= 2 else 1) for x in e.list_of_samples[-1]), 'the k-DPP chain has states of another size')
                    need(len(e.list_of_samples) == m + 1, 'the chain was not appended once')
                else:
                    for k in (rank - 1, rank + 1):
                        try: copy.deepcopy(d).sample_mcmc_k_dpp(k, random_state=0)
                        except ValueError: continue
                        raise Fail('size %d accepted for a projection of rank %d' % (k, rank))
            h.case('mcmc/%s after %s' % (which, hn), mc, dict(which=which, history=hn))
            if L is None:
                for k in (rank - 1, rank + 1):
                    h.raises('refusal/%s size %d after %s' % (which, k, hn), ValueError, lambda k=k: obj().sample_exact_k_dpp(k, random_state=0))
                for m in ('AED', 'AD'): h.raises('refusal/%s %s after %s' % (which, m, hn), ValueError, lambda m=m: obj().sample_mcmc(m, random_state=0))
            for m in ('vfx', 'alpha'):
                if 'L_eval' not in which: h.raises('refusal/%s %s after %s' % (which, m, hn), ValueError, lambda m=m: obj().sample_exact(m, random_state=0))
            h.raises('refusal/%s mode foo after %s' % (which, hn), ValueError, lambda: obj().sample_mcmc('foo', random_state=0))
            def fl():
                d = obj(); d.flush_samples(); need(d.list_of_samples == [], 'flush left %s', d.list_of_samples)
                d.sample_exact('GS', random_state=0); need(len(d.list_of_samples) == 1, 'after a flush and a sample: %d entries', len(d.list_of_samples))
            h.case('flush/%s after %s' % (which, hn), fl)
