from .lib import *
def esp_all(lam, K):
    lam = list(lam); n = len(lam)
    E = np.zeros((K + 1, n + 1)); E[0] = 1
    for m in range(1, n + 1):
        for k in range(1, K + 1):
            E[k, m] = sum(np.prod(c) for c in itertools.combinations(lam[:m], k))
    return E
def run(h):
    from dppy import exact_sampling as es
    r = h.rng('lam')
    lams = [[0.5], [1.0, 0.0], [0.3, 2.0, 0.7], [0.0, 1.0, 0.0, 2.0], [5.0, 0.1, 0.1, 3.0, 0.0], list(r.uniform(0, 3, 6)), [1.0] * 5, [2.0, 2.0, 0.0, 0.0, 1e-3, 4.0], list(1e3 * r.rand(4))]
    if not h.quick: lams += [list(r.exponential(1, 8)), list(r.rand(9)), [0.0] * 3 + [1.0] * 4]
    for q, lam in enumerate(lams):
        lam = np.array(lam); n = len(lam)
        for k in range(0, n + 2):
            def go(lam=lam, k=k):
                l0 = lam.copy()
                E = es.elementary_symmetric_polynomials(lam, k)
                need(np.array_equal(lam, l0), 'eigenvalues modified')
                close(E, esp_all(lam, k), 'table of elementary symmetric polynomials')
            h.case('esp/#%d k=%d' % (q, k), go, dict(eig_vals=lam, size=k))
        for N in (n, n + 2):
            V = orth(h.rng('V', q, N), N, n)
            key = {tuple(np.round(V[:, j], 10)): j for j in range(n)}
            def cols(W, k=None):
                need(W.ndim == 2 and W.shape[0] == len(V), 'columns of the eigenvector matrix expected, got shape %s' % (W.shape,))
                c = tuple(np.round(W[:, j], 10) for j in range(W.shape[1]))
                c = [key.get(tuple(x)) for x in c]
                need(None not in c, 'a returned column is not an eigenvector')
                return tuple(sorted(c))
            p = lam / (1 + lam)
            exp = {s: np.prod([p[i] if i in s else 1 - p[i] for i in range(n)]) for s in subsets(n)}
            h.law('bernoulli/#%d N=%d' % (q, N), lambda rng, p=p, V=V: cols(es.dpp_eig_vecs_selector(p, V, rng)), exp, dict(ber_params=p))
            rank = int((lam > 0).sum())
            for k in range(1, rank + 1):
                z = sum(np.prod(lam[list(s)]) for s in subsets(n, k))
                exp = {s: np.prod(lam[list(s)]) / z for s in subsets(n, k)}
                for extra in (None, 0, 1, n - k):
                    if extra is not None and (N != n): continue
                    def f(rng, lam=lam, V=V, k=k, extra=extra):
                        E = None if extra is None else esp_all(lam, k + extra)
                        E0 = None if E is None else E.copy()
                        V0, l0 = V.copy(), lam.copy()
                        W = es.k_dpp_eig_vecs_selector(lam, V, k, E, rng)
                        need(W.shape[1] == k, '%d columns returned, %d expected', W.shape[1], k)
                        need(np.array_equal(V, V0) and np.array_equal(lam, l0) and (E is None or np.array_equal(E, E0)), 'an argument was modified')
                        c = cols(W)
                        need(len(set(c)) == k, 'an eigenvector was selected twice: %s', c)
                        return c
                    h.law('kdpp/#%d N=%d k=%d E+%s' % (q, N, k, extra), f, exp, dict(eig_vals=lam, size=k, E_poly_degree=None if extra is None else k + extra))
            if N == n:
                for k in range(rank + 1, n + 2):
                    h.raises('refusal/#%d k=%d' % (q, k), ValueError, lambda lam=lam, V=V, k=k: es.k_dpp_eig_vecs_selector(lam, V, k, None, np.random.RandomState(0)), dict(eig_vals=lam, size=k))
