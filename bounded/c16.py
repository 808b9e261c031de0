from .lib import *
from fractions import Fraction as F
def trace_poly_diff(a, b, V, i, x, which, N):
    """Tr V(J(x)) - Tr V(J(0)), the coefficient i of a or b being set to x and to 0; exact rationals"""
    def tr(v):
        d = [F(y) for y in a[1:N + 1]]; e = [F(y) for y in b[1:N]]
        if which == 'a': d[i - 1] = F(v)
        else: e[i - 1] = F(v)
        J = [[F(0)] * N for _ in range(N)]
        for k in range(N): J[k][k] = d[k]
        for k in range(N - 1): J[k][k + 1] = e[k]; J[k + 1][k] = F(1)
        M, t = [[F(int(p == q)) for q in range(N)] for p in range(N)], F(0)
        for k in range(1, len(V)):
            M = [[sum(M[p][s] * J[s][q] for s in range(max(0, q - 1), min(N, q + 2))) for q in range(N)] for p in range(N)]
            if V[k]: t += F(V[k]) * sum(M[p][p] for p in range(N))
        return t
    return tr(x) - tr(0)
class Script(np.random.RandomState):
    class Out(Exception): pass
    def __new__(cls, *a): return super().__new__(cls, 0)
    def __init__(self, us=(), zs=()): super().__init__(0); self.us, self.zs, self.rec = list(us), list(zs), []
    def _pop(self, l):
        if not l: raise Script.Out()
        return l.pop(0)
    def rand(self, *d):
        if not d: return self._pop(self.us)
        return np.array([self._pop(self.us) for _ in range(int(np.prod(d)))]).reshape(d)
    def random_sample(self, size=None): return self.rand() if size is None else self.rand(*np.atleast_1d(size))
    random = random_sample
    def uniform(self, low=0.0, high=1.0, size=None): return low + (high - low) * self.random_sample(size)
    def randn(self, *d):
        if not d: return self._pop(self.zs)
        return np.array([self._pop(self.zs) for _ in range(int(np.prod(d)))]).reshape(d)
    def standard_normal(self, size=None): return self.randn() if size is None else self.randn(*np.atleast_1d(size))
    def normal(self, loc=0.0, scale=1.0, size=None):
        self.rec.append(('normal', float(np.ravel(loc)[0]), float(np.ravel(scale)[0])))
        return loc + scale * self.standard_normal(size)
    def gamma(self, shape, scale=1.0, size=None):
        self.rec.append(('gamma', float(shape), float(np.ravel(scale)[0])))
        v = self._pop(self.zs)
        return v if size is None else np.full(size, v)
def threshold(acc, lo=0.0, hi=1.0, n=45):
    """largest u accepted, acc decreasing"""
    if acc(1 - 1e-15): return 1.0
    if not acc(0.0): return 0.0
    for _ in range(n):
        m = 0.5 * (lo + hi)
        if acc(m): lo = m
        else: hi = m
    return lo
def run(h):
    from dppy import beta_ensemble_polynomial_potential_core as core, beta_ensemble_polynomial_potential as bp
    PA, PB = core.polynomial_in_negative_log_conditional_a_coef, core.polynomial_in_negative_log_conditional_b_coef
    r = h.rng('c')
    reps = 2 if h.quick else 8
    # conditional polynomials
    for N in (1, 2, 3, 4, 5, 7, 9):
        for rep in range(reps):
            for Vc in [[0] * k + [1] for k in range(1, 7)] + [[0] + r.randint(-3, 4, 6).tolist(), [0, 0, 1, 0, 2, 0, 3], [0, 1, 1, 2]]:
                a, b = np.zeros(N + 3), np.zeros(N + 3)
                a[1:N + 1] = r.randint(-8, 9, N) / 4.0; b[1:N] = r.randint(1, 12, N - 1) / 4.0
                V = np.poly1d(Vc[::-1])
                def go(N=N, Vc=Vc, a=a, b=b, V=V):
                    for i in range(1, N + 1):
                        for which, f in (('a', PA), ('b', PB)):
                            if which == 'b' and i == N: continue
                            a0, b0 = a.copy(), b.copy()
                            P = f(i, a, b, V)
                            need(np.array_equal(a, a0) and np.array_equal(b, b0), 'coefficients modified')
                            for x in (F(1), F(-1), F(2), F(-3, 2), F(3), F(5, 4), F(1, 3)):
                                e = float(trace_poly_diff(a, b, Vc, i, x, which, N)); g = float(P(float(x)) - P(0.0))
                                need(abs(g - e) <= 1e-8 * (1 + abs(e)), '%s_%d conditional, x=%s: %.12g, trace gives %.12g', which, i, x, g, e)
                h.case('trace/N=%d' % N, go, dict(N=N, V=Vc, a=a, b=b))
    for d in (7, 8, 9):
        V = np.poly1d([1.0] + [0.0] * d)
        a = np.ones(9)
        h.raises('degree/%d' % d, ValueError, lambda: PA(2, a, a, V), dict(degree=d))
        h.raises('degree/%d' % d, ValueError, lambda: PB(2, a, a, V), dict(degree=d))
        h.raises('degree class/%d' % d, ValueError, lambda: bp.BetaEnsemblePolynomialPotential(2.0, V), dict(degree=d))
    for bad in (0, -1.5): h.raises('beta', ValueError, lambda: bp.BetaEnsemblePolynomialPotential(bad, np.poly1d([1, 0, 0])))
    # MALA
    pots = [[0, 0, 0.5], [0, 1, 0, 0, 0.25], [0, 0.3, -1, 0.2, 1], [0, 0, 1, 0, 0, 0, 1 / 6], [0, 8 / 5, 1 / 5, -4 / 15, 1 / 20]]
    for Vc in pots:
        V = np.poly1d(Vc[::-1]); dV = V.deriv()
        for sigma in (0.01, 0.3, 0.8):
            def go(V=V, dV=dV, sigma=sigma):
                for x in (-1.1, 0.0, 0.4, 2.0):
                    for z in (-1.7, -0.3, 0.05, 0.9, 2.2):
                        y = x - 0.5 * sigma ** 2 * dV(x) + sigma * z
                        lq = lambda u, v: -(v - u + 0.5 * sigma ** 2 * dV(u)) ** 2 / (2 * sigma ** 2)
                        e = min(1.0, math.exp(min(0.0, V(x) - V(y) + lq(y, x) - lq(x, y))))
                        got = lambda u: abs(float(core.sampler_mala(x, V, sigma=sigma, nb_steps=1, random_state=Script([u], [z]))) - y) < 1e-12
                        t = threshold(got)
                        need(abs(t - e) < 1e-6, 'move %.4g -> %.4g accepted with probability %.8g, the Metropolis-Hastings ratio is %.8g', x, y, t, e)
                        if e < 1 - 1e-9: need(abs(float(core.sampler_mala(x, V, sigma=sigma, nb_steps=1, random_state=Script([1 - 1e-16], [z]))) - x) < 1e-12, 'a rejected move must stay')
                # several steps are the composition
                us, zs = [0.2, 0.9, 0.5, 0.99], [0.3, -1.0, 1.4, 0.2]
                w = 0.7
                for u, z in zip(us, zs): w = float(core.sampler_mala(w, V, sigma=sigma, nb_steps=1, random_state=Script([u], [z])))
                mixed = Script(us, zs)
                need(abs(float(core.sampler_mala(0.7, V, sigma=sigma, nb_steps=4, random_state=mixed)) - w) < 1e-10, 'several steps')
            h.case('mala/sigma=%s' % sigma, go, dict(V=Vc, sigma=sigma))
    # samplers of the conditionals: proposal density x acceptance proportional to the target
    def prop(name, xs, ws, f, what):
        lr = [math.log(w) - f(x) for x, w in zip(xs, ws) if w > 0]
        need(len(lr) == len(xs), '%s: a proposal is never accepted (%s)', name, [x for x, w in zip(xs, ws) if w <= 0][:3])
        need(max(lr) - min(lr) < 2e-3, '%s: law of the accepted proposals not proportional to the target, log-ratios %s at %s', name, np.round(np.array(lr) - lr[0], 5)[:12], np.round(xs, 4)[:12])
    conf = [(None, [0, 0.3, 1.0]), (None, [0, -2.0, 3.0, 0.0, 1.5]), (None, [0, 1.0, 0.0, 0, 4.0]), (None, [0, 40.0, 20.0, 0, 50.0])]
    conf += [(s, [0] + p) for s in (0.5, 1.0, 1.5, 4.0, 20.0) for p in ([3.0], [2.0, 1.5], [1.0, 0.5, 0.4], [12.0, 30.0])]
    conf += [(s, [0, -1.5, 2.0]) for s in (1.0, 3.0)] + [(3.0, [0, -1.0, 1.0, 0.5])]
    for shape, pc in conf:
        P = np.poly1d(pc[::-1])
        def go(shape=shape, P=P):
            logf = (lambda x: -P(x)) if shape is None else (lambda x: (shape - 1) * math.log(x) - P(x))
            call = lambda rng: float(np.ravel(core.sampler_exact_convex_quartic(P, shape=shape, random_state=rng)[0])[0])
            s = Script([0.5], [0.3])
            try: call(s)
            except Script.Out: pass
            if s.rec:
                k, m, sc = s.rec[0]
                xs, ws = [], []
                for z in (0.05, 0.2, 0.5, 0.9, 1.3, 1.9) if k == 'gamma' else (-1.2, -0.4, 0.1, 0.4, 1.0, 2.0):
                    x = z / max(1.0, math.sqrt(abs(P[2])), abs(P[3])) if k == 'gamma' else m + sc * z
                    def acc(u):
                        try: return abs(call(Script([u], [x if k == 'gamma' else z])) - x) < 1e-9
                        except Script.Out: return False
                    if shape is not None and x <= 0:
                        need(not acc(1e-9), 'the nonpositive value %s is accepted', x); continue
                    t = threshold(acc)
                    d = (m - 1) * math.log(x) - x / sc if k == 'gamma' else -0.5 * z * z
                    xs.append(x); ws.append(t * math.exp(d))
                return prop(k, xs, ws, logf, '')
            X = lambda u, v: call(Script([u, v, 0.0]))
            vs = np.linspace(1e-6, 1 - 1e-9, 80); u0 = 0.37
            x0 = [X(u0, v) for v in vs]
            cuts = [0.0]
            for v, w, p, q in zip(vs, vs[1:], x0, x0[1:]):
                if abs(p - q) > 1e-9 * (1 + abs(p)):
                    lo, hi = v, w
                    for _ in range(36):
                        mid = 0.5 * (lo + hi)
                        if abs(X(u0, mid) - p) < 1e-9 * (1 + abs(p)): lo = mid
                        else: hi = mid
                    cuts.append(hi)
            cuts.append(1.0)
            xs, ws = [], []
            for c, d in zip(cuts, cuts[1:]):
                if d - c < 1e-6: continue
                v = 0.5 * (c + d)
                for u in (0.1, 0.35, 0.6, 0.9):
                    x = X(u, v); e = 1e-5
                    dx = abs(X(u + e, v) - X(u - e, v)) / (2 * e)
                    def acc(w):
                        try: return abs(call(Script([u, v, w])) - x) < 1e-12 * (1 + abs(x))
                        except Script.Out: return False
                    if dx < 1e-12: continue
                    if logf(x) < max([logf(y) for y in xs] + [-1e9]) - 25: continue
                    t = threshold(acc)
                    if t < 1e-7: continue
                    xs.append(x); ws.append(t * (d - c) / dx)
            need(len(xs) >= 8, 'too few accepted proposals')
            prop('Dev12', xs, ws, logf, '')
        h.case('conditional sampler/shape=%s' % shape, go, dict(P=pc, shape=shape))
    # Gibbs pass
    for beta, Vc in ((2.0, [0, 0, 1.0, 0, 0.25]), (1.0, [0, 0, 0.5]), (4.0, [0, 0, 0, 0, 0.25]), (2.0, [0, 0, 1.0, 0, 0.1, 0, 1 / 6]), (3.0, [0, 8 / 5, 1 / 5, -4 / 15, 1 / 20])):
        for N in (1, 2, 5):
            for exact in (False, True):
                if exact and (len(Vc) > 5 or Vc[1] or (len(Vc) > 3 and Vc[3])): continue
                def go(beta=beta, Vc=Vc, N=N, exact=exact):
                    V = np.poly1d(Vc[::-1])
                    ens = bp.BetaEnsemblePolynomialPotential(beta, np.poly1d(Vc[::-1]))
                    for seed in range(2):
                        got = ens.sample_mcmc(N=N, nb_gibbs_passes=3, sample_exact_cond=exact, nb_mala_steps=20, random_state=seed)
                        chain = ens.sample_mcmc(N=N, nb_gibbs_passes=3, sample_exact_cond=exact, nb_mala_steps=20, random_state=seed, return_chain_of_eig_vals=True)
                        if N > 1: lmax = ens.sample_mcmc(N=N, nb_gibbs_passes=3, sample_exact_cond=exact, nb_mala_steps=20, random_state=seed, return_chain_of_lambda_max=True)
                        rng = np.random.RandomState(seed)
                        a, b = np.zeros((2, N + 3)); ref = []
                        def poly(i, which):
                            deg = len(Vc) - 1
                            xs = [F(k) for k in range(-(deg // 2), deg - deg // 2 + 1)]
                            ys = [trace_poly_diff(a, b, Vc, i, x, which, N) for x in xs]
                            return np.poly1d(lagrange(xs, ys)[::-1])
                        for p in range(3):
                            for i in range(1, N + 1):
                                Q = 0.5 * beta * N * poly(i, 'a')
                                a[i] = core.sampler_exact_convex_quartic(P=Q, random_state=rng)[0] if exact else core.sampler_mala(a[i], V=Q, sigma=0.01, nb_steps=20, random_state=rng)
                                if i < N: b[i] = np.ravel(core.sampler_exact_convex_quartic(P=0.5 * beta * N * poly(i, 'b'), shape=0.5 * beta * (N - i), random_state=rng)[0])[0]
                            ref.append(np.linalg.eigvalsh(np.diag(a[1:N + 1]) + np.diag(np.sqrt(b[1:N]), 1) + np.diag(np.sqrt(b[1:N]), -1)))
                        close(np.sort(got), ref[-1], 'points after 3 passes', 1e-5)
                        close(np.sort(chain, axis=0), np.array(ref).T, 'chain of points', 1e-5)
                        if N > 1: close(lmax, np.array(ref)[:, -1], 'chain of largest points', 1e-5)
                h.case('gibbs/N=%d' % N, go, dict(beta=beta, V=Vc, N=N, exact=exact))
def lagrange(xs, ys):
    """coefficients (increasing degree, floats) of the interpolating polynomial, exact rationals"""
    n = len(xs); out = [F(0)] * n
    for i in range(n):
        c, den = [F(1)], F(1)
        for j in range(n):
            if j != i:
                c = [(c[k - 1] if k else F(0)) - xs[j] * (c[k] if k < len(c) else F(0)) for k in range(len(c) + 1)]
                den *= xs[i] - xs[j]
        for k in range(n): out[k] += ys[i] * c[k] / den
    return [float(v) for v in out]
