from .lib import *
from .fin import *
import copy
def run(h):
    from dppy.finite_dpps import FiniteDPP
    r = h.rng('p')
    for which in ALL:
        for n in (2, 4) + (() if h.quick else (7, 12, 30)):
            kt, pr, ps, K, L = params(r, n, which)
            def mk(): return FiniteDPP(kt, pr, **copy.deepcopy(ps))
            def ckK(d, msg=''):
                d.compute_K(); close(d.K, K, 'correlation kernel' + msg, 1e-7)
            def ckL(d, msg=''):
                if L is None:
                    try: d.compute_L()
                    except ValueError: return
                    raise Fail('compute_L of a projection correlation kernel did not raise ValueError' + msg)
                d.compute_L(); close(d.L, L, 'likelihood kernel' + msg, 1e-6)
            ops = dict(K=ckK, L=ckL, GS=lambda d, m='': d.sample_exact('GS', random_state=3), chol=lambda d, m='': d.sample_exact('Chol', random_state=4),
                       k=lambda d, m='': attempt(lambda: d.sample_exact_k_dpp(1 if L is not None else int(round(np.trace(K))), random_state=5)),
                       k2=lambda d, m='': attempt(lambda: d.sample_exact_k_dpp(2 if n > 3 and L is not None else 1, random_state=5)),
                       mcmc=lambda d, m='': attempt(lambda: d.sample_mcmc('E', size=int(round(np.trace(K))) if L is None else 1, random_state=6)), flush=lambda d, m='': d.flush_samples())
            seqs = [[a] for a in ('K', 'L')] + [[a, b] for a in ops for b in ('K', 'L')] + [[a, b, 'L', 'K'] for a in ('GS', 'chol', 'k', 'mcmc') for b in ops]
            if not h.quick: seqs += [[a, b, c, 'K', 'L'] for a in ops for b in ops for c in ops]
            for seq in seqs:
                def go(seq=seq):
                    saved = copy.deepcopy(ps)
                    d = mk()
                    for i, o in enumerate(seq): ops[o](d, ' after %s' % seq[:i])
                    ckK(d, ' after %s' % seq); ckL(d, ' after %s' % seq); ckK(d, ' after %s' % seq)
                h.case('kernels/%s n=%d %s' % (which, n, ' '.join(seq)), go, dict(which=which, n=n, ops=seq, params={k: v for k, v in ps.items()}))
def attempt(f):
    try: f()
    except ValueError: pass
