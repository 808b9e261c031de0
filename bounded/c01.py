from .lib import *
def run(h):
    from dppy import exact_sampling as es
    r0 = h.rng('kernels')
    confs = [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (4, 3), (4, 4), (5, 3), (6, 3), (5, 4), (7, 2)] + ([] if h.quick else [(6, 4), (7, 4), (6, 5), (9, 3), (12, 2), (6, 6)])
    for n, r in confs:
        for rep in range(1 if h.quick else 2):
            K = proj(r0, n, r)
            if rep == 1 and n >= 3:      # sparse projection: zero diagonal entries and blocks
                q = np.zeros((n, r)); q[:r, :] = orth(r0, r, r) if r < n else orth(r0, n, r); K = q.dot(q.T)
            for mode in ('GS', 'Chol', 'Schur'):
                for k in [None] + list(range(1, r + 1)):
                    kk = r if k is None else k
                    def f(rng, K=K, mode=mode, k=k, kk=kk):
                        K0 = K.copy()
                        s = es.proj_dpp_sampler_kernel(K, mode, k, rng)
                        need(np.array_equal(K, K0), 'the kernel was modified')
                        need(len(s) == kk, '%d items returned, size %d expected', len(s), kk)
                        distinct(s, len(K))
                        return ordered(s)
                    h.law('law/%s n=%d r=%d k=%s rep=%d' % (mode, n, r, k, rep), f, sequential_law(K, kk), dict(kernel=K, mode=mode, size=k))
    # diagonal (trivial) projections
    for n, on in ((4, [0, 2]), (5, [4]), (3, [0, 1, 2])):
        K = np.zeros((n, n)); K[on, on] = 1.0
        for mode in ('GS', 'Chol', 'Schur'):
            h.law('diagonal/%s %d %s' % (mode, n, on), lambda rng, K=K, mode=mode: canon(es.proj_dpp_sampler_kernel(K, mode, None, rng)), {tuple(on): 1.0}, dict(kernel=K))
    # Cholesky: complex kernels and factor
    for n, r in [(3, 2), (4, 2), (4, 3), (5, 3)] + ([] if h.quick else [(6, 3), (5, 4)]):
        for cplx in (False, True):
            K = proj(r0, n, r, cplx)
            for k in range(1, r + 1):
                def f(rng, K=K, k=k):
                    K0 = K.copy()
                    s, A = es.proj_dpp_sampler_kernel_Chol(K, k, rng)
                    need(np.array_equal(K, K0), 'the kernel was modified')
                    distinct(s, len(K)); need(A.shape == (k, k), 'factor of shape %s' % (A.shape,))
                    Lw = np.tril(A)
                    close(Lw.dot(Lw.conj().T), K[np.ix_(s, s)], 'Cholesky factor of the sampled minor')
                    return ordered(s)
                h.law('factor/%s n=%d r=%d k=%d' % ('C' if cplx else 'R', n, r, k), f, sequential_law(K, k), dict(kernel=K, size=k))
    # larger kernels: marginal law of every draw along random paths
    for n, r in ((12, 6), (20, 8)) + (() if h.quick else ((40, 15), (60, 30))):
        for cplx in (False, True):
            K = proj(r0, n, r, cplx)
            for mode in (('Chol',) if cplx else ('GS', 'Chol', 'Schur')):
                for k in (r, r - 2):
                    chain(h, 'chain/%s n=%d r=%d k=%d %s' % (mode, n, r, k, 'C' if cplx else 'R'), lambda rng, K=K, mode=mode, k=k: es.proj_dpp_sampler_kernel(K, mode, k, rng), K, r, k)
    for mode in ('GS', 'Chol', 'Schur'):
        K = proj(r0, 5, 2)
        for k in (3, 5):
            h.raises('refusal/%s size %d > rank' % (mode, k), ValueError, lambda mode=mode, k=k: es.proj_dpp_sampler_kernel(K, mode, k, np.random.RandomState(0)))
    for mode in ('gs', 'foo', None):
        h.raises('refusal/mode %r' % mode, ValueError, lambda mode=mode: es.proj_dpp_sampler_kernel(proj(r0, 4, 2), mode, None, np.random.RandomState(0)))

def chain(h, name, f, K, r, k, reps=3):
    """random paths: the product of the probabilities of the draws is the probability of the ordered sample"""
    def go():
        for i in range(reps):
            rng = RandomPath(1000 + i)
            s = f(rng)
            distinct(s, len(K)); need(len(s) == k, '%d items, expected %d', len(s), k)
            want = minor(K, list(s)).real / np.prod([float(r - i) for i in range(k)])
            need(abs(rng.prob - want) <= 1e-6 * want, 'ordered sample %s drawn with probability %.10g, chain rule gives %.10g', [int(x) for x in s], rng.prob, want)
    h.case(name, go, dict(kernel=K, size=k))
