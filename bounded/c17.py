from .lib import *
from .c16 import Script, threshold
from scipy import special as sc
class S17(Script):
    def __init__(self, us=(), betas=(), inds=()): super().__init__(us); self.betas, self.inds, self.nint, self.arg = list(betas), list(inds), 0, []
    def randint(self, low, high=None, size=None, dtype=int):
        self.arg.append((low, high)); self.nint += 1
        return self._pop(self.inds)
    def choice(self, n, size=None, replace=True, p=None):
        if p is not None or size is not None: raise NotEnumerable('choice')
        return self.randint(n)
    def beta(self, a, b, size=None):
        if not (np.all(np.asarray(a) == 0.5) and np.all(np.asarray(b) == 0.5)): raise Fail('proposal beta(%s, %s)' % (a, b))
        return np.array(self._pop(self.betas))
def refpoly(ab, order, X):
    """orthonormal polynomials at the points X (m, d): (m, N)"""
    X = np.atleast_2d(X); out = np.ones((len(X), len(order)))
    for i, k in enumerate(order):
        for j, n in enumerate(k):
            a, b = ab[j]
            n = int(n)
            if n == 0: h2 = 2 ** (a + b + 1) * sc.beta(a + 1, b + 1)
            else: h2 = math.exp((a + b + 1) * math.log(2) + sc.gammaln(n + a + 1) + sc.gammaln(n + b + 1) - sc.gammaln(n + 1) - sc.gammaln(n + a + b + 1)) / (2 * n + a + b + 1)
            out[:, i] *= sc.eval_jacobi(n, a, b, X[:, j]) / math.sqrt(h2)
    return out
def reforder(N, d):
    m = 0
    while (m + 1) ** d < N: m += 1
    return sorted(itertools.product(range(m + 1), repeat=d), key=lambda k: (max(k), k))[:N]
def run(h):
    from dppy import multivariate_jacobi_ope as jo
    from dppy.random_matrices import mu_ref_beta_sampler_tridiag as tri
    OPE = jo.MultivariateJacobiOPE
    r = h.rng('x')
    for d in (1, 2, 3, 4, 5):
        for N in list(range(1, 40)) + [63, 64, 65, 100, 124, 125, 126, 216, 217, 243, 256, 257, 343, 729, 1000, 1024]:
            def go(d=d, N=N):
                o = [tuple(int(v) for v in k) for k in jo.compute_ordering(N, d)]
                need(o == reforder(N, d), 'ordering %s, expected %s', o[:15], reforder(N, d)[:15])
            h.case('ordering/d=%d' % d, go, dict(N=N, d=d))
    if not h.quick: h.case('ordering/large', lambda: need(len(jo.compute_ordering(33000, 1)) == 33000, 'ordering of 33000'), limit=300)
    S = -0.5
    pars = [[[S, S]], [[0.5, 0.5]], [[0.0, 0.3]], [[S, 0.2]], [[0.4, S]], [[2.0, -0.9]], [[-0.2, -0.8]], [[S, S], [S, S]], [[0.1, -0.3], [0.5, S]], [[0.25, 0.25], [S, S]], [[0.0, 0.0], [0.3, 0.1]], [[S, S], [0.2, -0.4], [0.5, 0.5]]]
    pars += [r.uniform(-0.5, 0.5, (2, 2)).tolist() for _ in range(2 if h.quick else 8)]
    for ab in pars:
        ab = np.array(ab); d = len(ab)
        for N in (1, 2, 5, 9) + ((20,) if d < 3 else ()):
            def go(ab=ab, d=d, N=N):
                ab0 = ab.copy(); m = OPE(N, ab); o = reforder(N, d)
                D = max(max(k) for k in o)
                nodes = [sc.roots_jacobi(D + 2, a, b) for a, b in ab]
                X = np.array(list(itertools.product(*[x for x, _ in nodes]))); W = np.prod(np.array(list(itertools.product(*[w for _, w in nodes]))), axis=1)
                Phi = m.eval_multiD_polynomials(X)
                close((Phi * W[:, None]).T.dot(Phi), np.eye(N), 'Gram matrix of the polynomials', 1e-7)
                Y = r.uniform(-0.99, 0.99, (6, d)); Z = r.uniform(-0.99, 0.99, (6, d)); T = r.uniform(-0.99, 0.99, (3, d))
                py, pz, pt = (refpoly(ab, o, v) for v in (Y, Z, T))
                close(m.eval_multiD_polynomials(Y), py, 'polynomials', 1e-7)
                close(m.eval_multiD_polynomials(Y[0]), py[:1], 'polynomials at one point', 1e-7)
                close(m.K(Y), py.dot(py.T), 'K(X)', 1e-7); close(m.K(Y, Z), py.dot(pz.T), 'K(X,Y)', 1e-7); close(m.K(Y, T), py.dot(pt.T), 'K(X,Y)', 1e-7)
                close(m.K(T, Y), pt.dot(py.T), 'K(X,Y)', 1e-7)
                close(m.K(Y, Y), py.dot(py.T), 'K(X,X)', 1e-7)
                close(m.K(Y, eval_pointwise=True), (py * py).sum(1), 'pointwise K(x,x)', 1e-7); close(m.K(Y, Z, eval_pointwise=True), (py * pz).sum(1), 'pointwise K(x,y)', 1e-7)
                close(m.K(Y, Y.copy(), eval_pointwise=True), (py * py).sum(1), 'pointwise K(x,x)', 1e-7)
                close(m.K(Y[0], Z[0]), py[:1].dot(pz[:1].T), 'K at one point', 1e-7)
                close(m.eval_w(Y), np.prod((1 - Y) ** ab[:, 0] * (1 + Y) ** ab[:, 1], axis=1), 'weight')
                need(np.array_equal(ab, ab0), 'parameters modified')
                q = jo.compute_norms_1D_polynomials(ab, 12)
                for j, (a, b) in enumerate(ab):
                    x, w = sc.roots_jacobi(14, a, b)
                    for n in range(13): close(q[n, j] ** 2, (w * sc.eval_jacobi(n, a, b, x) ** 2).sum(), 'norm of degree %d' % n, 1e-7)
            h.case('kernel/d=%d N=%d' % (d, N), go, dict(N=N, jacobi_params=ab))
        if np.all(np.abs(ab) <= 0.5):
            def go(ab=ab, d=d):
                o = reforder(12, d); C = jo.compute_rejection_bounds(ab, o)
                with np.errstate(all='ignore'): C2 = jo.compute_rejection_bounds(ab, o, log_scale=False)
                close(C, C2, 'bounds in both scales', 1e-7)
                x = np.cos(np.linspace(1e-4, math.pi - 1e-4, 3001))
                for i, k in enumerate(o):
                    s = 1.0
                    for j, n in enumerate(k):
                        a, b = ab[j]
                        p = refpoly(ab[j:j + 1], [(n,)], x[:, None])[:, 0]
                        s *= np.max(p ** 2 * (1 - x) ** (a + 0.5) * (1 + x) ** (b + 0.5) * math.pi)
                    need(C[i] >= s * (1 - 1e-7), 'bound %.8g of the multi-index %s below the supremum %.8g', C[i], k, s)
                for n in (30, 80):
                    C = jo.compute_rejection_bounds(ab, [(n,) * d])
                    s = 1.0
                    for j in range(d):
                        a, b = ab[j]; p = refpoly(ab[j:j + 1], [(n,)], x[:, None])[:, 0]
                        s *= np.max(p ** 2 * (1 - x) ** (a + 0.5) * (1 + x) ** (b + 0.5) * math.pi)
                    need(C[0] >= s * (1 - 1e-7), 'bound of degree %d', n)
            h.case('bounds/d=%d' % d, go, dict(jacobi_params=ab))
            for N in (1, 3, 6):
                def go(ab=ab, d=d, N=N):
                    m = OPE(N, ab); o = reforder(N, d)
                    for ind in range(N):
                        lr = []
                        for _ in range(4 if h.quick else 12):
                            x = r.uniform(-0.97, 0.97, d)
                            def acc(u):
                                s = S17([u], [0.5 * (1 - x)], [ind])
                                try: y = m.sample_chain_rule_proposal(random_state=s)
                                except Script.Out: return False
                                close(np.ravel(y), x, 'proposal'); return True
                            t = threshold(acc)
                            e = refpoly(ab, o, x)[0, ind] ** 2 * np.prod((1 - x) ** (ab[:, 0] + 0.5) * (1 + x) ** (ab[:, 1] + 0.5))
                            if t >= 1: need(all(ab[j, 0] == ab[j, 1] == -0.5 and v == 0 for j, v in enumerate(o[ind])), 'always accepted at %s', x)
                            if e > 1e-6: lr.append(math.log(t) - math.log(e))
                        need(max(lr) - min(lr) < 1e-5, 'the proposals accepted for the multi-index %s do not follow P_k^2 w, log-ratios %s', o[ind], lr)
                        # the multi-index is kept until a proposal is accepted, drawn uniformly in 0..N-1
                        s = S17([1 - 1e-9, 0.0], [[0.02] * d, [0.3] * d], [ind]); y = m.sample_chain_rule_proposal(random_state=s)
                        need(s.nint == 1 and [v if w is None else w - v for v, w in s.arg] == [N] and all(v == 0 for v, w in s.arg if w is not None), 'multi-index drawn by randint%s', s.arg)
                h.case('proposal/d=%d N=%d' % (d, N), go, dict(N=N, jacobi_params=ab))
            for N in (1, 2, 4, 7) if not h.quick or ab is pars[8] or d == 1 else (1, 3):
                def go(ab=ab, d=d, N=N):
                    m = OPE(N, ab); o = reforder(N, d)
                    for step in range(N):
                        X = r.uniform(-0.97, 0.97, (N + 2, d)); B = [list(0.5 * (1 - x)) for x in X]
                        def samp(u):
                            us = [0.0, 0.0] * step + [0.0, u] + [0.0, 0.0] * (N - step)
                            return m.sample(random_state=S17(us, B, [i % N for i in range(N + 2)]), tridiag_1D=False)
                        def acc(u): return np.allclose(samp(u)[step], X[step])
                        P = refpoly(ab, o, X); K = P.dot(P.T)
                        Y = list(range(step))
                        s = K[step, step] - (K[step, Y].dot(np.linalg.solve(K[np.ix_(Y, Y)], K[Y, step])) if Y else 0.0)
                        t = threshold(acc, n=26)
                        need(abs(t - s / K[step, step]) < 1e-6, 'point %d accepted with probability %.8g, expected %.8g', step + 1, t, s / K[step, step])
                        if t < 0.999:
                            out = samp(0.5 + 0.5 * t); close(out, np.delete(X, [step, N + 1], axis=0)[:N], 'points after a rejection at step %d' % step)
                        close(samp(0.0), X[:N], 'points')
                h.case('chain/d=%d N=%d' % (d, N), go, dict(N=N, jacobi_params=ab))
        if d == 1:
            for N in (1, 2, 10):
                def go(ab=ab, N=N):
                    for seed in range(3):
                        out = OPE(N, ab).sample(random_state=seed)
                        need(out.shape == (N, 1), 'shape %s', out.shape)
                        close(np.sort(out[:, 0]), np.sort(1 - 2 * tri(a=ab[0, 0] + 1, b=ab[0, 1] + 1, size=N, random_state=seed)), 'points')
                h.case('tridiagonal/N=%d' % N, go, dict(N=N, jacobi_params=ab))
    for N, ab in ((0, [[0., 0.]]), (-1, [[0., 0.]]), (2.0, [[0., 0.]]), (3, [[-1.0, 0.]]), (3, [[0., -1.2]]), (3, [[0., 0.6], [0., 0.]]), (3, [[0., 0.], [-0.6, 0.]])):
        h.raises('refused/%s' % N, ValueError, lambda: OPE(N, np.array(ab)), dict(N=N, jacobi_params=ab))
    for ab in ([[S, S], [0.3, S]], [[0.5, -0.1], [0.0, 0.0]]):
        def go(ab=ab):
            for seed in range(3):
                out = OPE(12, np.array(ab)).sample(random_state=seed)
                need(out.shape == (12, 2) and np.all(np.abs(out) <= 1), 'points %s', out)
        h.case('run/d=2', go, dict(jacobi_params=ab))
