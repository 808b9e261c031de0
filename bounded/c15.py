from .lib import *
from .quant import *
def eig_tri(a, b2): return np.sort(la.eigvalsh_tridiagonal(a, np.sqrt(b2))) if len(a) > 1 else np.array(a, dtype=float)
# reference coefficients as functions of draws: normal() ~ N(0,1), gamma(k) ~ Gamma(k,1), beta(a,b)
def herm(d, N, beta, loc, scale):
    return np.array([loc + scale * d('normal') for i in range(N)]), np.array([scale ** 2 * d('gamma', beta / 2 * (N - i)) for i in range(1, N)])
def lagu(d, N, beta, shape, scale):
    odd = [scale * d('gamma', beta / 2 * (N - i) + shape) for i in range(1, N + 1)]
    even = [0.0] + [scale * d('gamma', beta / 2 * (N - i)) for i in range(1, N)]
    return np.array(odd) + np.array(even), np.array([odd[i] * even[i + 1] for i in range(N - 1)])
def jaco(d, N, beta, a, b):
    codd = [d('beta', beta / 2 * (N - i) + a, beta / 2 * (N - i) + b) for i in range(1, N + 1)]
    ceven = [0.0] + [d('beta', beta / 2 * (N - i), beta / 2 * (N - i - 1) + a + b) for i in range(1, N)]
    odd = [(1 - ceven[i]) * codd[i] for i in range(N)]
    even = [0.0] + [(1 - codd[i - 1]) * ceven[i] for i in range(1, N)]
    return np.array(odd) + np.array(even), np.array([odd[i] * even[i + 1] for i in range(N - 1)])
def cmv(alpha):
    N = len(alpha)
    def th(a): r = math.sqrt(max(0.0, 1 - abs(a) ** 2)); return np.array([[np.conj(a), r], [r, -a]])
    Lm, Mm = np.zeros((N, N), complex), np.zeros((N, N), complex)
    Mm[0, 0] = 1
    for k in range(N):
        A = Lm if k % 2 == 0 else Mm
        if k == N - 1: A[k, k] = np.conj(alpha[k])
        else: A[k:k + 2, k:k + 2] = th(alpha[k])
    return Lm.dot(Mm)
def circ(d, N, beta):
    al = []
    for i in range(1, N + 1):
        nu = beta * (N - i) + 1
        g = np.array([d('normal') for _ in range(nu + 1)])
        al.append((g[0] + 1j * g[1]) / np.linalg.norm(g))
    return al
def csort(z): z = np.asarray(z); return z[np.lexsort((np.round(z.real, 6), np.round(np.angle(z), 6)))]
def same_spectrum(z, w, what):
    z, w = list(z), list(w)
    need(len(z) == len(w), '%s: %d points, %d expected', what, len(z), len(w))
    for x in z:
        j = int(np.argmin([abs(x - y) for y in w]))
        need(abs(x - w[j]) < 1e-6, '%s: %s is not an eigenvalue of the model (%s)', what, x, w); w.pop(j)
def run(h):
    from dppy import random_matrices as rm, beta_ensembles as be
    models = {'hermite': (herm, lambda N, beta, p, rng: rm.mu_ref_normal_sampler_tridiag(p[0], p[1], beta, N, rng), [(0.0, 1.0), (1.3, 0.7), (-2.0, math.sqrt(2))]),
              'laguerre': (lagu, lambda N, beta, p, rng: rm.mu_ref_gamma_sampler_tridiag(p[0], p[1], beta, N, rng), [(1.17, 1.0), (0.53, 2.0), (4.01, 0.6)]),
              'jacobi': (jaco, lambda N, beta, p, rng: rm.mu_ref_beta_sampler_tridiag(p[0], p[1], beta, N, rng), [(1.0, 2.3), (0.51, 0.62), (3.1, 1.7)])}
    counts = {'hermite': lambda N: 2 * N - 1, 'laguerre': lambda N: 2 * N - 1, 'jacobi': lambda N: 2 * N - 1}
    Ns = (1, 2, 3, 4, 5, 8, 13) if h.quick else (1, 2, 3, 4, 5, 6, 7, 8, 13, 40)
    for name, (ref, real, parlist) in models.items():
        for N in Ns:
            for beta in (0.37, 1, 2, 2.5, 4, 11):
                for p in parlist:
                    def go(name=name, N=N, beta=beta, p=p):
                        for lev in (0.21, 0.5, 0.83, None):
                            q = QuantRNG(lev, seed=5)
                            pts = np.asarray(real(N, beta, p, q))
                            need(pts.shape == (N,), '%s points for size %d', pts.shape, N)
                            if len(q.rec) != counts[name](N): h.notes.append('%s: %d draws, statistical check only' % (name, len(q.rec))); return
                            if lev is None:
                                def d(kind, *s): return q.take(kind, s)
                            else:
                                def d(kind, *s): return {'normal': lambda: sc.ndtri(lev), 'gamma': lambda k: sc.gammaincinv(k, lev), 'beta': lambda a, b: sc.betaincinv(a, b, lev)}[kind](*s)
                            kinds = {'hermite': {'normal': N, 'gamma': N - 1}, 'laguerre': {'gamma': 2 * N - 1}, 'jacobi': {'beta': 2 * N - 1}}[name]
                            got = {}
                            for rr in q.rec: got[rr[0]] = got.get(rr[0], 0) + 1
                            if got != {k: v for k, v in kinds.items() if v}: h.notes.append('%s: other primitive draws %s, statistical check only' % (name, got)); return
                            try: a, b2 = ref(d, N, beta, *p)
                            except KeyError: raise Fail('the parameters of the draws %s are not those of the model' % sorted(r for r in q.rec if r)[:8])
                            close(np.sort(pts), eig_tri(a, b2), 'points of the %s model with draws at quantile %s' % (name, lev), 1e-6)
                    h.case('coefficients/%s N=%d beta=%s %s' % (name, N, beta, p), go, dict(N=N, beta=beta, params=p))
    for N in Ns:
        for beta in (1, 2, 3, 4, 8):
            def go(N=N, beta=beta):
                for seed in range(3):
                    q = QuantRNG(None, seed)
                    pts = rm.mu_ref_unif_unit_circle_sampler_quindiag(beta, N, q)
                    need(np.shape(pts) == (N,), '%s points for size %d', np.shape(pts), N)
                    need(np.allclose(np.abs(pts), 1), 'points off the unit circle: %s', np.abs(pts))
                    want = sum(beta * (N - i) + 2 for i in range(1, N + 1))
                    if len(q.rec) != want or any(r[0] != 'normal' for r in q.rec): h.notes.append('circular: other primitive draws, statistical check only'); return
                    def d(kind, *s): return q.take(kind, s)
                    same_spectrum(pts, la.eigvals(cmv(circ(d, N, beta))), 'circular model')
            h.case('coefficients/circular N=%d beta=%d' % (N, beta), go, dict(N=N, beta=beta))
    # statistics of the points against an independent reference sampler (threshold 7 standard deviations)
    M = 4000 if h.quick else 30000
    def stat(pts):
        pts = np.sort(pts, axis=1)
        f = [pts[:, 0], pts[:, -1], pts.sum(1), (pts ** 2).sum(1), pts.sum(1) ** 2, pts[:, 0] * pts[:, -1], np.log(np.abs(np.diff(pts, axis=1)) + 1e-12).sum(1), pts[:, pts.shape[1] // 2]]
        return np.array(f)
    def compare(x, y, what):
        a, b = stat(x), stat(y)
        for i in range(len(a)):
            se = math.sqrt(a[i].var() / a.shape[1] + b[i].var() / b.shape[1]) + 1e-12
            z = abs(a[i].mean() - b[i].mean()) / se
            need(z < 7, '%s: statistic %d has mean %.5g, the model has %.5g (%.1f standard deviations)', what, i, a[i].mean(), b[i].mean(), z)
    class D:
        def __init__(s, r): s.r = r
        def __call__(s, kind, *p): return {'normal': s.r.standard_normal, 'gamma': s.r.standard_gamma, 'beta': s.r.beta}[kind](*p)
    for name, (ref, real, parlist) in models.items():
        for N, beta in ((3, 1.5), (5, 4)):
            p = parlist[1]
            def go(name=name, N=N, beta=beta, p=p):
                r1, r2 = h.rng('s', name, N), h.rng('t', name, N)
                x = np.array([np.real(real(N, beta, p, r1)) for _ in range(M)])
                d = D(r2); y = np.array([eig_tri(*ref(d, N, beta, *p)) for _ in range(M)])
                compare(x, y, name)
            h.case('statistics/%s N=%d beta=%s' % (name, N, beta), go, dict(N=N, beta=beta, params=p))
    for N, beta in ((2, 2), (4, 3)):
        def go(N=N, beta=beta):
            r1, r2 = h.rng('s', 'c', N), h.rng('t', 'c', N)
            x = np.array([rm.mu_ref_unif_unit_circle_sampler_quindiag(beta, N, r1) for _ in range(M)])
            d = D(r2); y = np.array([la.eigvals(cmv(circ(d, N, beta))) for _ in range(M)])
            fx = lambda z: np.abs(z.sum(1))
            for f in (lambda z: np.abs(z.sum(1)), lambda z: np.abs((z ** 2).sum(1)), lambda z: z.sum(1).real, lambda z: z.sum(1).imag, lambda z: np.abs((z ** 3).sum(1)), lambda z: np.prod(z, axis=1).real):
                a, b = f(x), f(y); z = abs(a.mean() - b.mean()) / math.sqrt((a.var() + b.var()) / M + 1e-12)
                need(z < 7, 'a statistic has mean %.5g, the model has %.5g (%.1f standard deviations)', a.mean(), b.mean(), z)
        h.case('statistics/circular N=%d beta=%d' % (N, beta), go, dict(N=N, beta=beta))
    # ensemble classes
    def same(cls, beta, kw, f, params):
        def go():
            e = cls(beta=beta)
            for rep in range(2):
                p1 = e.sample_banded_model(random_state=QuantRNG(0.3), **kw)
                p2 = f(QuantRNG(0.3))
                need(len(e.list_of_samples) == rep + 1 and e.list_of_samples[-1] is p1 or np.array_equal(e.list_of_samples[-1], p1), 'the sample is not recorded')
                close(np.sort_complex(np.asarray(p1)), np.sort_complex(np.asarray(p2)), 'points of %s' % cls.__name__, 1e-7)
                for k, v in params.items(): need(e.params.get(k) is v or (e.params.get(k) is not None and np.isclose(e.params.get(k), v)), 'recorded parameter %s = %r, expected %r', k, e.params.get(k), v)
                need(e.beta == beta, 'beta changed to %r', e.beta)
            e.flush_samples(); need(e.list_of_samples == [], 'flush')
        h.case('class/%s beta=%s %s' % (cls.__name__, beta, sorted(kw.items())), go, dict(beta=beta, args=kw))
    for beta in (0.5, 1, 2, 3.5):
        for N in (1, 4, 9):
            for loc, scale in ((0.0, 1.0), (1.5, 0.3)):
                same(be.HermiteEnsemble, beta, dict(loc=loc, scale=scale, size_N=N), lambda q: rm.mu_ref_normal_sampler_tridiag(loc, scale, beta, N, q), dict(loc=loc, scale=scale, size_N=N))
                same(be.LaguerreEnsemble, beta, dict(shape=scale, scale=loc + 1, size_N=N), lambda q: rm.mu_ref_gamma_sampler_tridiag(scale, loc + 1, beta, N, q), dict(shape=scale, scale=loc + 1, size_N=N, size_M=2 / beta * scale + N - 1))
                same(be.JacobiEnsemble, beta, dict(a=scale, b=loc + 2, size_N=N), lambda q: rm.mu_ref_beta_sampler_tridiag(scale, loc + 2, beta, N, q), dict(a=scale, b=loc + 2, size_N=N, size_M1=2 / beta * scale + N - 1, size_M2=2 / beta * (loc + 2) + N - 1))
            same(be.HermiteEnsemble, beta, dict(size_N=N), lambda q: rm.mu_ref_normal_sampler_tridiag(0.0, math.sqrt(2), beta, N, q), dict(loc=0.0, scale=math.sqrt(2), size_N=N))
            same(be.LaguerreEnsemble, beta, dict(size_N=N, size_M=N + 3), lambda q: rm.mu_ref_gamma_sampler_tridiag(0.5 * beta * 4, 2.0, beta, N, q), dict(shape=0.5 * beta * 4, scale=2.0, size_M=N + 3))
            same(be.JacobiEnsemble, beta, dict(size_N=N, size_M1=N + 1, size_M2=N + 4), lambda q: rm.mu_ref_beta_sampler_tridiag(0.5 * beta * 2, 0.5 * beta * 5, beta, N, q), dict(a=0.5 * beta * 2, b=0.5 * beta * 5, size_M1=N + 1, size_M2=N + 4))
            if isinstance(beta, int): same(be.CircularEnsemble, beta, dict(size_N=N), lambda q: rm.mu_ref_unif_unit_circle_sampler_quindiag(beta, N, q), dict(size_N=N))
    for N in (1, 4):
        same(be.HermiteEnsemble, 0, dict(loc=1.0, scale=2.0, size_N=N), lambda q: q.normal(1.0, 2.0, N), dict(loc=1.0, scale=2.0))
        same(be.LaguerreEnsemble, 0, dict(shape=1.5, scale=3.0, size_N=N), lambda q: q.gamma(1.5, 3.0, N), dict(shape=1.5, scale=3.0, size_M=np.inf))
        same(be.JacobiEnsemble, 0, dict(a=1.5, b=0.4, size_N=N), lambda q: q.beta(1.5, 0.4, N), dict(a=1.5, b=0.4))
        same(be.CircularEnsemble, 0, dict(size_N=N), lambda q: np.exp(2j * np.pi * q.rand(N)), dict(size_N=N))
    for bt in (0, -1, -0.5):
        h.raises('refusal/hermite %s' % bt, ValueError, lambda: rm.mu_ref_normal_sampler_tridiag(0, 1, bt, 4, 0))
        h.raises('refusal/laguerre %s' % bt, ValueError, lambda: rm.mu_ref_gamma_sampler_tridiag(1, 1, bt, 4, 0))
        h.raises('refusal/jacobi %s' % bt, ValueError, lambda: rm.mu_ref_beta_sampler_tridiag(1, 1, bt, 4, 0))
    for bt in (0, -1, 1.5, -2): h.raises('refusal/circular %s' % bt, ValueError, lambda: rm.mu_ref_unif_unit_circle_sampler_quindiag(bt, 4, 0))
    for cls in (be.HermiteEnsemble, be.LaguerreEnsemble, be.JacobiEnsemble, be.CircularEnsemble): h.raises('refusal/%s' % cls.__name__, ValueError, lambda cls=cls: cls(beta=-1))
