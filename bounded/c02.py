from .lib import *
from .c01 import chain
def run(h):
    from dppy import exact_sampling as es
    r0 = h.rng('vecs')
    confs = [(1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (4, 3), (4, 4), (5, 3), (6, 3), (5, 4), (7, 2)] + ([] if h.quick else [(6, 4), (7, 4), (6, 5), (9, 3), (12, 2)])
    for n, r in confs:
        for rep in range(2):
            V = orth(r0, n, r)
            if rep == 1:
                # sparse: rows with leading zeros, so pivots other than the first column matter
                if n < 3 or r < 2: continue
                V = np.zeros((n, r)); a = (n + 1) // 2; ra = r // 2
                if a < ra or n - a < r - ra: continue
                V[:a, :ra] = orth(r0, a, ra); V[a:, ra:] = orth(r0, n - a, r - ra)
            for mode in ('GS', 'GS_bis', 'KuTa12'):
                for k in [None] + list(range(1, r + 1)):
                    kk = r if k is None else k
                    def f(rng, V=V, mode=mode, k=k, kk=kk):
                        V0 = V.copy()
                        s = es.proj_dpp_sampler_eig(V, mode, k, rng)
                        need(np.array_equal(V, V0), 'the eigenvectors were modified')
                        need(len(s) == kk, '%d items returned, size %d expected', len(s), kk)
                        distinct(s, len(V))
                        return ordered(s)
                    h.law('law/%s n=%d r=%d k=%s rep=%d' % (mode, n, r, k, rep), f, sequential_law(V.dot(V.T), kk), dict(eig_vecs=V, mode=mode, size=k))
    for n, r in ((12, 6), (20, 8)) + (() if h.quick else ((40, 15), (60, 30))):
        V = orth(r0, n, r)
        for mode in ('GS', 'GS_bis', 'KuTa12'):
            for k in (r, r - 2):
                chain(h, 'chain/%s n=%d r=%d k=%d' % (mode, n, r, k), lambda rng, V=V, mode=mode, k=k: es.proj_dpp_sampler_eig(V, mode, k, rng), V.dot(V.T), r, k)
    for mode in ('GS', 'GS_bis', 'KuTa12'):
        h.law('empty/%s' % mode, lambda rng, mode=mode: ordered(es.proj_dpp_sampler_eig(np.zeros((4, 0)), mode, None, rng)), {(): 1.0})
    for mode in ('gs', 'foo', None):
        h.raises('refusal/mode %r' % mode, ValueError, lambda mode=mode: es.proj_dpp_sampler_eig(orth(r0, 4, 2), mode, None, np.random.RandomState(0)))
