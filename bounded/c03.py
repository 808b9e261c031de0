from .lib import *
def kernels(h):
    r = h.rng('K')
    out = []
    for n in [1, 2, 3, 4, 5] + ([6] if h.quick else [6, 7, 8]):
        out.append(('sym', corr(r, n)))
        # non symmetric: K = I - (L + I)^-1 with L a P0 matrix (psd + skew)
        A = r.randn(n, n); L = 0.4 * psd(r, n) + (A - A.T)
        out.append(('nonsym', np.eye(n) - np.linalg.inv(L + np.eye(n))))
        if n >= 2: out.append(('proj', proj(r, n, n - 1)))
        # upper triangular: independent items, not symmetric
        T = np.triu(r.uniform(-1, 1, (n, n)), 1) + np.diag(r.uniform(0.1, 0.9, n))
        out.append(('triangular', T))
    d = np.diag([1.0, 0.0, 0.5, 1.0]); out.append(('degenerate', d))
    return out
def lu_target(K, s):
    B = np.array(K, dtype=float); n = len(K)
    B[np.arange(n), np.arange(n)] -= np.array([0.0 if i in s else 1.0 for i in range(n)])
    for j in range(n):
        B[j + 1:, j] /= B[j, j]
        B[j + 1:, j + 1:] -= np.outer(B[j + 1:, j], B[j, j + 1:])
    return B
def run(h):
    from dppy import exact_sampling as es
    for q, (kind, K) in enumerate(kernels(h)):
        def f(rng, K=K):
            K0 = K.copy()
            out = es.dpp_sampler_generic_kernel(K, rng)
            need(isinstance(out, tuple) and len(out) == 2, 'a pair is expected')
            s, A = out
            need(np.array_equal(K, K0), 'the kernel was modified')
            need(isinstance(s, list), 'the sample is not a list')
            need(list(s) == sorted(set(int(x) for x in s)), 'sample not increasing: %s', s)
            if kind != 'degenerate': close(A, lu_target(K, s), 'LU factorisation of K - I_{S^c}', 1e-6)
            return ordered(s)
        h.law('law/%s n=%d #%d' % (kind, len(K), q), f, K_law(K), dict(K=K))
    # larger kernels: the determinant of the returned factorisation and the path probability agree
    r = h.rng('big')
    for n in (12, 25) + (() if h.quick else (60,)):
        A = r.randn(n, n); L = 0.2 * psd(r, n) + (A - A.T)
        for K in (np.eye(n) - np.linalg.inv(L + np.eye(n)), corr(r, n)):
            def go(K=K, n=n):
                for seed in range(3):
                    us = []
                    class Rec(np.random.RandomState):
                        def rand(self, *d):
                            u = super().rand(*d); us.append(u); return u
                    s, A = es.dpp_sampler_generic_kernel(K, Rec(seed))
                    T = lu_target(K, s); close(A, T, 'LU factors', 1e-5)
                    want, B = [], K.copy()
                    if len(us) == n and all(np.ndim(u) == 0 for u in us):
                        for j in range(n):
                            if abs(us[j] - B[j, j]) > 1e-9:
                                need((us[j] < B[j, j]) == (j in s), 'item %d: uniform %.6g against conditional probability %.6g, but %s', j, us[j], B[j, j], 'included' if j in s else 'excluded')
                            if j not in s: B[j, j] -= 1
                            B[j + 1:, j] /= B[j, j]; B[j + 1:, j + 1:] -= np.outer(B[j + 1:, j], B[j, j + 1:])
            h.case('path/n=%d' % n, go, dict(n=n))
