from .lib import *
class Ker:
    def __init__(self, scale, eps, fast): self.scale, self.eps = scale, eps
    def __call__(self, X, Y=None):
        X = np.atleast_2d(X); Y2 = X if Y is None else np.atleast_2d(Y)
        D = ((X[:, None, :] - Y2[None, :, :]) ** 2).sum(-1)
        return self.scale * np.exp(-D / 2) + self.eps * X.dot(Y2.T)
class KerD(Ker):
    def diag(self, X): return self.scale + self.eps * (X ** 2).sum(1)
def rls(L, LXD, LDD, p, lam):
    """(L_ii - L_iD (L_DD + lam diag(p))^-1 L_Di) / lam for the rows LXD"""
    return (np.asarray(L) - np.einsum('ij,ij->i', LXD, la.solve(LDD + lam * np.diag(p), LXD.T).T)) / lam
def run(h):
    from dppy import bless as bl
    r = h.rng('x')
    def ref(D, X, ev, lam):
        G = ev(X)
        return rls(np.diag(G), ev(X, D.X), ev(D.X), D.probs, lam)
    def wellformed(D, X, lam, q):
        idx = np.asarray(D.idx)
        need(idx.ndim == 1 and len(idx) >= 1, 'empty dictionary')
        need(np.all(np.diff(idx) > 0) and idx[0] >= 0 and idx[-1] < len(X), 'indices %s are not distinct and increasing', idx)
        need(D.X.shape == (len(idx), X.shape[1]) and np.array_equal(D.X, X[idx]), 'the dictionary rows are not the data rows of its indices')
        need(np.shape(D.probs) == (len(idx),), 'probabilities of shape %s', np.shape(D.probs))
        need(D.lam == lam, 'lam = %r, expected %r', D.lam, lam)
        need(D.rls_oversample == q, 'oversampling %r, expected %r', D.rls_oversample, q)
    confs = [(3, 1.0, 0.0, False), (4, 2.0, 0.3, True), (5, 0.5, 0.1, False), (4, 5.0, 1.0, True)] + ([] if h.quick else [(6, 1.0, 0.2, True), (5, 10.0, 2.0, False), (6, 0.2, 0.0, True)])
    for ci, (n, sc, eps, fast) in enumerate(confs):
        X = r.randn(n, 2); ev = (KerD if fast else Ker)(sc, eps, fast); G = ev(X)
        for di, (idx, pr) in enumerate([([0], [1.0]), ([0, n - 1], [0.4, 0.9]), (list(range(n)), list(r.uniform(0.2, 1, n))), ([1], [2.5])]):
            for lam0, lam in ((4.0, 4.0), (4.0, 1.0), (1.0, 0.3)):
                D = bl.CentersDictionary(idx=np.array(idx), X=X[idx], probs=np.array(pr), lam=lam0, rls_oversample=2.0)
                def est(D=D, lam=lam):
                    X0, P0 = X.copy(), D.probs.copy()
                    e = bl.estimate_rls_bless(D, X, ev, lam)
                    need(np.array_equal(X, X0) and np.array_equal(P0, D.probs), 'an argument was modified')
                    close(e, ref(D, X, ev, lam), 'leverage score estimates', 1e-7)
                h.case('estimate/%d dict=%s lam=%s' % (ci, idx, lam), est, dict(X=X, dict=idx, probs=pr, lam=lam))
                for q in (None, 1.5, 3.0, 30.0):
                    def go(D=D, lam=lam, q=q, lam0=lam0):
                        qq = 2.0 if q is None else q
                        tau = ref(D, X, ev, lam)
                        d = np.diag(G); ucb = np.minimum(qq * d / (d + lam), 1.0)
                        p = np.minimum(qq * tau, ucb)
                        seen = {}
                        def f(rng):
                            X0 = X.copy()
                            try: N = bl.reduce_lambda(X, ev, D, lam, rng, rls_oversample_parameter=q) if q is not None else bl.reduce_lambda(X, ev, D, lam, rng)
                            except ValueError: return 'refused'
                            need(np.array_equal(X, X0), 'the data were modified')
                            wellformed(N, X, lam, qq)
                            close(N.probs, p[N.idx], 'inclusion probabilities of the dictionary %s' % N.idx, 1e-7)
                            return canon(N.idx)
                        law, _, m = enumerate_law(f, max_paths=40000); h.stats['paths'] += m
                        sure = np.sum((ucb > 1 - 1e-12) & (p > 1 - 1e-9)) >= 2
                        for s in subsets(n):
                            if not s: continue
                            e = np.prod([p[i] if i in s else 1 - p[i] for i in range(n)])
                            g = law.get(s, 0.0)
                            if g > e + 1e-7 or (sure and abs(g - e) > 1e-7): raise Fail('dictionary %s has probability %.8g, independent inclusion gives %.8g' % (s, g, e))
                        if not sure:
                            # given that the first stage keeps enough points, inclusion stays independent: compare with the two-stage law
                            ref2 = {}
                            for U in subsets(n):
                                if not U: continue
                                pU = np.prod([ucb[i] if i in U else 1 - ucb[i] for i in range(n)])
                                rej = p[list(U)] / ucb[list(U)]
                                if rej.sum() < 1 + 1e-9: continue
                                for s in subsets(len(U)):
                                    if not s: continue
                                    w = pU * np.prod([rej[i] if i in s else 1 - rej[i] for i in range(len(U))])
                                    key = tuple(U[i] for i in s); ref2[key] = ref2.get(key, 0) + w
                            for s in set(ref2) | set(k for k in law if k != 'refused'):
                                need(abs(ref2.get(s, 0) - law.get(s, 0)) < 1e-6 or law.get(s, 0) >= ref2.get(s, 0) - 1e-6, 'dictionary %s has probability %.8g, expected %.8g', s, law.get(s, 0), ref2.get(s, 0))
                    h.case('reduce/%d dict=%s lam=%s->%s q=%s' % (ci, idx, lam0, lam, q), go, dict(X=X, dict=idx, probs=pr, lam=lam, q=q))
                h.raises('refusal/%d dict=%s increasing %s' % (ci, idx, lam0), ValueError, lambda D=D, lam0=lam0: bl.reduce_lambda(X, ev, D, lam0 * 1.01, np.random.RandomState(0), rls_oversample_parameter=30.0))
    # whole runs: every dictionary met is well formed, with the probabilities of its predecessor
    for n, sc, q in ((1, 2.0, 20.0), (2, 3.0, 15.0), (12, 2.0, 4.0), (30, 1.0, 6.0), (60, 5.0, 5.0)):
        X = r.randn(n, 2); ev = KerD(sc, 0.2, True)
        for seed in range(4 if h.quick else 20):
            for which in ('bless', 'size'):
                for nb in ((None, 1, 2, 5) if which == 'bless' else (None, 2, 5)):
                    if which == 'size' and n < 12: continue
                    def go(seed=seed, which=which, nb=nb):
                        steps = []
                        old = bl.reduce_lambda
                        def spy(Xd, e, D, lam, rng, *a, **k):
                            N = old(Xd, e, D, lam, rng, *a, **k)
                            steps.append((D, lam, N)); return N
                        bl.reduce_lambda = spy
                        lamf = 1.0 if which == 'size' else (0.5 + seed if n >= 12 else 0.5 / (1 + seed))
                        try:
                            try:
                                if which == 'bless': D = bl.bless(X, ev, lamf, q, np.random.RandomState(seed), nb_iter_bless=nb, verbose=False)
                                else: lmax, lmin, D = bl.bless_size(X, ev, 3, q, np.random.RandomState(seed), nb_iter_bless=nb, verbose=False)
                            except ValueError as e:
                                if 'selected' in str(e) or 'deff' in str(e): return
                                raise
                        finally: bl.reduce_lambda = old
                        wellformed(D, X, D.lam, q)
                        if which == 'bless': need(abs(D.lam - lamf) < 1e-9 * lamf, 'final regularisation %r, requested %r', D.lam, lamf)
                        else: need(D.lam == lmin or abs(D.lam - 1) < 1e-9, 'dictionary at regularisation %r for lambda_min %r', D.lam, lmin); need(lmin <= lmax * (1 + 1e-12), 'lambda_min %r > lambda_max %r', lmin, lmax)
                        d = np.diag(ev(X))
                        for P, lam, N in steps:
                            wellformed(N, X, lam, q)
                            t = rls(d[N.idx], ev(N.X, P.X), ev(P.X), P.probs, lam)
                            close(N.probs, np.minimum(np.minimum(q * t, q * d[N.idx] / (d[N.idx] + lam)), 1.0), 'inclusion probabilities', 1e-6)
                            need(lam <= P.lam * (1 + 1e-12), 'regularisation increased from %r to %r', P.lam, lam)
                        for (_, _, a), (b, _, _) in zip(steps[:-1], steps[1:]): need(a is b, 'a step does not start from the previous dictionary')
                        if steps: need(steps[-1][2] is D, 'the dictionary returned is not the last one')
                    h.case('run/%s n=%d nb=%s seed=%d' % (which, n, nb, seed), go, dict(n=n, q=q, seed=seed))
