"""C16: Gibbs conditionals of polynomial-potential ensembles"""
from .poly import *
CORE = 'dppy.beta_ensemble_polynomial_potential_core'
def potential(ctx):
    """any polynomial: coefficients g_1..g_6 and degree"""
    c = [z3.Real('g_%d' % k) for k in range(7)]
    n = z3.Int('deg')
    ctx.assume([n >= 0] + [z3.Implies(n < k, c[k] == 0) for k in range(7)])
    return Poly(c, order=n), c, n

def padded(ctx, name, N, last):
    """array of length N + 3 whose entries outside 1..last are zero"""
    F = fresh_fn(name, I, R)
    def f(j):
        j = simp(to_int(j))
        if concrete(j) == 0 or any(concrete(simp(j - N - k)) == 0 for k in (0, 1, 2) if k > concrete(simp(to_int(last) - N))): return z3.RealVal(0)
        return F(j)
    a = lib.new(ctx, [N + 3], R, f); a.ro, a.name = True, name
    ctx.assume([F(z3.IntVal(0)) == 0] + [F(simp(to_int(last) + k)) == 0 for k in (1, 2, 3)][:3 if concrete(simp(to_int(last) - N)) else 2])
    return a, f

class Conditional(FnContract):
    """coefficient x^m of the polynomial returned = coefficient x^m of Tr V(J), m >= 1, J having the coefficient updated replaced by x"""
    prop = 'C16'
    externals = {'numpy.poly1d': poly1d}
    must_reach = ('pre', 'return', 'raise:ValueError')
    site = 'a'
    scenarios = ('i=1', 'i>=2')
    assumes = ('numpy.poly1d: arithmetic, indexing and len (degree) of polynomials',)
    def setup(self, ctx):
        N, i = z3.Ints('N i')
        ctx.assume([N >= 1, i >= 1, i <= N if self.site == 'a' else i <= N - 1])
        if self.scenario == 'i=1': i = 1
        else: ctx.assume(i >= 2)
        V, c, n = potential(ctx)
        (a, A), (b, B_) = padded(ctx, 'a', N, N), padded(ctx, 'b', N, N - 1)
        # window read by the specification; entries outside the matrix are zero
        w = {(f, s): z3.RealVal(0) if isinstance(i, int) and 1 + s < 1 else F(to_int(i) + s) for f, F in (('a', A), ('b', B_)) for s in range(-3, 4)}
        ctx.ghost.update(N=N, i=i, A=A, B=B_, c=c, n=n, w=w)
        return [i, a, b, V], {}
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)
        ctx.check('degrees up to 6 are accepted', ctx.ghost['n'] > 6)
    def on_return(self, ctx, P):
        g = ctx.ghost; c, w = g['c'], g['w']
        ctx.check('degrees above 6 are refused', g['n'] <= 6)
        ctx.check('a polynomial is returned', isinstance(P, Poly) and P.order is None)
        if not isinstance(P, Poly): raise PathEnd()
        def term(p):
            r = z3.RealVal(0)
            assert all(s <= 2 and s >= -2 for m in p for f, s in m)
            for m, co in p.items():
                t = z3.RealVal(co)
                for v in m: t = t * w.get(v, z3.RealVal(0))
                r = r + t
            return r
        ctx.check('degree at most 6', len(P.cs) <= 7)
        for m in range(1, 7):
            want = z3.RealVal(0)
            for k in range(1, 7):
                p = trace_coefs(k, self.site).get(m)
                if p: want = want + c[k] * term(p)
            ctx.check('coefficient of x^%d' % m, P.coef(m) == want)

class CondA(Conditional):
    target, title = CORE + ':polynomial_in_negative_log_conditional_a_coef', 'conditional of a diagonal coefficient'
class CondB(Conditional):
    target, title, site = CORE + ':polynomial_in_negative_log_conditional_b_coef', 'conditional of an off-diagonal coefficient', 'b'

# ---------------------------------------------------------------- Metropolis adjusted Langevin
VV, DV = z3.Function('V', R, R), z3.Function('dV', R, R)
class Potential(Poly):
    """any differentiable potential"""
    def __init__(self): Poly.__init__(self, [0], fn=VV)
    def v_getitem(self, ctx, k): raise Unsupported('coefficient of an unspecified potential')
    def v_method(self, ctx, name, args, kw):
        if name != 'deriv' or concrete(lib.arg(args, kw, 0, 'm', 1)) != 1: raise Unsupported('method %s of the potential' % name)
        p = Poly([0], fn=DV)
        return p

def free_uniform(ctx, d):
    """uniform draws are compared with transcendental thresholds: no interval tracking"""
    if d.method == 'u': ctx.uniforms.pop(d.u.get_id()); ctx.assume(d.u > 0); return 'u'

class MalaLoop(LoopSpec):
    name = 'steps'
    def entry(self, ls):
        ls.ctx.check('the chain starts from the point given', to_real(ls.v('x_')) == ls.g['x'])
        ls.ctx.check('number of steps', to_int(ls.n) == ls.g['nb'])
    def exit(self, ls): ls.g['last'] = to_real(ls.v('x_'))
    def begin(self, ls): ls.g.update(x0=ls.v('x_'), z=None, u=None)
    def end(self, ls):
        c, g = ls.ctx, ls.g
        ok = g['z'] is not None and g['u'] is not None
        c.check('one proposal and one uniform draw per step', ok)
        if not ok: return
        x, s = to_real(g['x0']), g['sigma']
        y = x - s * s / 2 * DV(x) + s * g['z']
        # log q(u, v): density at v of the proposal from u
        lq = lambda u, v: -(v - u + s * s / 2 * DV(u)) * (v - u + s * s / 2 * DV(u)) / (2 * s * s)
        t = VV(x) - VV(y) + lq(y, x) - lq(x, y)
        new = to_real(ls.v('x_'))
        c.check('the state is the proposal when accepted by the Metropolis-Hastings ratio, and unchanged otherwise',
                z3.And(z3.Implies(LOG(g['u']) < t, new == y), z3.Implies(LOG(g['u']) > t, new == x)))

class Mala(FnContract):
    """each step moves x to y = x - sigma^2/2 V'(x) + sigma z exactly when log u < log pi(y) q(y,x) / (pi(x) q(x,y)), pi = exp(-V)"""
    cut_concrete = True
    prop, target, title = 'C16', CORE + ':sampler_mala', 'Metropolis adjusted Langevin sampler'
    loops = (MalaLoop(),)
    scenarios = ('given', 'default')
    assumes = ('a uniform draw is almost surely positive and differs from the threshold', 'Metropolis-Hastings theorem: such a step leaves exp(-V) invariant')
    def setup(self, ctx):
        x, s = z3.Reals('x sigma'); n = z3.Int('nb'); ctx.assume([s > 0, n >= 0])
        g = ctx.ghost; g.update(x=x, z=None, u=None, last=None, nb=z3.IntVal(20) if self.scenario == 'default' else n)
        if self.scenario == 'default': g['sigma'] = z3.RealVal('1/100'); return [x, Potential()], dict(random_state=Rng())
        g['sigma'] = s
        return [x, Potential(), s, n, Rng()], {}
    def on_draw(self, ctx, d):
        g = ctx.ghost
        if free_uniform(ctx, d):
            ctx.check('one uniform draw per step', g['u'] is None); g['u'] = d.u; return None
        if d.method in ('randn', 'standard_normal', 'normal') and hasattr(d, 'args'):
            ctx.check('one proposal per step', g['z'] is None)
            loc, sc = lib.arg(d.args, d.kw, 0, 'loc', 0), lib.arg(d.args, d.kw, 1, 'scale', 1)
            if d.method != 'normal' and (d.args or d.kw) or len(d.args) > 2: raise Unsupported('normal draws of given size')
            g['z'] = fresh('z', R)
            return g['z'] if d.method != 'normal' else to_real(loc) + to_real(sc) * g['z']
    def on_return(self, ctx, v):
        ctx.check('the last state is returned', ctx.ghost['last'] is not None and lib.is_scalar(v) and to_real(v) == ctx.ghost['last'])

# ---------------------------------------------------------------- samplers of the conditionals
class Accept:
    """rejection loop: ghost proposal ('X'), log acceptance ratio"""
    pass

class RejectLoop(LoopSpec):
    name = 'rejection'
    def begin(self, ls): ls.g.update(X=None, us=[])
    def end(self, ls): self.decided(ls, False)
    def exit(self, ls):
        ls.g['exhausted'] = True
        for nm in ls.names(): ls.frame.locals.setdefault(nm, fresh('last', R))
    def on_break(self, ls): self.decided(ls, True)
    def decided(self, ls, acc):
        ls.ctx.contract.decided(ls.ctx, acc)

class Rejection(FnContract):
    """proposals X accepted exactly when log u < ratio(X), a version of log target - log proposal density bounded by 0"""
    prop = 'C16'
    loops = (RejectLoop(),)
    cut_concrete = True
    assumes = ('a uniform draw is almost surely positive and differs from the threshold', 'the allowed number of proposals is enough: the last rejected proposal is returned otherwise')
    def on_draw(self, ctx, d):
        g = ctx.ghost
        if free_uniform(ctx, d): g['us'].append(d.u); return None
        return self.proposal(ctx, d)
    def decided(self, ctx, acc):
        g = ctx.ghost
        ok = g['X'] is not None and len(g['us']) == 1
        ctx.check('one proposal and one uniform draw', ok)
        if not ok: return
        u, X = g['us'][0], g['X']
        dom, ratio = self.ratio(ctx, X)
        if acc:
            ctx.check('accepted proposals are in the domain', dom)
            ctx.check('proposals are accepted with the ratio of the target to the proposal', LOG(u) <= ratio)
            ctx.check('the ratio is at most 1', ratio <= 0)
        else: ctx.check('proposals are only rejected by the ratio', z3.Implies(dom, LOG(u) >= ratio))
    def on_return(self, ctx, v):
        g = ctx.ghost
        ok = isinstance(v, tuple) and len(v) == 2
        ctx.check('a pair is returned', ok)
        if not ok: raise PathEnd()
        if g.get('X') is not None and not g.get('exhausted'):
            x = lib.to_arr(ctx, v[0])
            ctx.check('the accepted proposal is returned', x.get(*[z3.IntVal(0)] * x.ndim) == g['X'])

class TruncGauss(Rejection):
    """target exp(-(x-mu)^2/(2 var) - g_3 x^3) on x > b; proposal N(max(b, mu), var)"""
    target, title = CORE + ':trunc_gaussian_sampler', 'truncated Gaussian sampler'
    def setup(self, ctx):
        b, mu, var, g3 = z3.Reals('b mu var g3')
        ctx.assume([b >= 0, var > 0, g3 >= 0])
        ctx.ghost.update(b=b, mu=mu, var=var, g3=g3, X=None, us=[])
        return [b, mu, var, Rng(), g3], {}
    def proposal(self, ctx, d):
        g = ctx.ghost
        if d.method != 'normal': return None
        loc, sc = to_real(lib.arg(d.args, d.kw, 0, 'loc', 0)), to_real(lib.arg(d.args, d.kw, 1, 'scale', 1))
        ctx.check('scale of the proposal', z3.And(sc >= 0, sc * sc == g['var']))
        g['X'] = fresh('X', R); g['loc'] = loc
        return g['X']
    def ratio(self, ctx, X):
        g = ctx.ghost; b, mu, var, g3, loc = [g[k] for k in ('b', 'mu', 'var', 'g3', 'loc')]
        # log target - log proposal, normalised by its value at the truncated mode
        f = lambda x: -(x - mu) * (x - mu) / (2 * var) + (x - loc) * (x - loc) / (2 * var)
        ctx.check('the proposal is centred in the domain or at its edge', z3.And(loc >= b, loc >= mu, z3.Or(loc == b, loc == mu)))
        return X > b, f(X) - f(loc) - g3 * X * X * X

class GammaLt1(Rejection):
    """target x^(shape-1) exp(-P_1 x - P_2 x^2 - P_3 x^3) on x > 0; proposal gamma(shape, rate P_1)"""
    target, title = CORE + ':gen_gamma_alpha_lt_1_sampler', 'generalised gamma sampler, shape at most 1'
    def setup(self, ctx):
        sh, p1, p2, p3 = z3.Reals('shape p1 p2 p3')
        ctx.assume([sh > 0, p1 > 0, p2 >= 0, p3 >= 0])
        ctx.ghost.update(p=(p1, p2, p3), shape=sh, X=None, us=[])
        return [sh, Poly([0, p1, p2, p3]), Rng()], {}
    def proposal(self, ctx, d):
        g = ctx.ghost
        if d.method != 'gamma': return None
        sh, sc, sz = to_real(lib.arg(d.args, d.kw, 0, 'shape')), to_real(lib.arg(d.args, d.kw, 1, 'scale', 1)), lib.arg(d.args, d.kw, 2, 'size')
        ctx.check('shape of the proposal', sh == g['shape'])
        ctx.check('rate of the proposal', sc * g['p'][0] == 1)
        ctx.check('one proposal', sz is None or concrete(sz) == 1)
        X = g['X'] = fresh('X', R)
        ctx.assume(X > 0)
        return X if sz is None else lib.new(ctx, [1], R, lambda i: X)
    def ratio(self, ctx, X):
        p1, p2, p3 = ctx.ghost['p']
        return z3.BoolVal(True), -(p2 * X * X + p3 * X * X * X)


# ---------------------------------------------------------------- piecewise exponential envelopes
FF = z3.Function('logf', R, R)
def logsumexp(ctx, args, kw):
    """scipy.special.logsumexp(a, b): log of sum b exp(a)"""
    a, b = lib.arg(args, kw, 0, 'a'), kw.get('b')
    if set(kw) - {'a', 'b'}: raise Unsupported('options of logsumexp')
    a = lib.iterate(ctx, a); n = concrete(a[0])
    b = lib.iterate(ctx, b) if b is not None else (n, lambda i: 1)
    if not isinstance(n, int) or concrete(b[0]) != n: raise Unsupported('logsumexp of unknown length')
    S = z3.Sum([to_real(b[1](i)) * EXP(to_real(a[1](i))) for i in range(n)])
    g = ctx.ghost
    # the masses of the envelope, piece after piece, are named
    cache = g['contract'].cache; key = (g['gamma'], S.sexpr())
    if key not in cache:
        ms = g['contract'].masses(ctx)
        k = n - 1 if n <= 4 else 4
        cache[key] = k if ctx.prove(S == ms[k], 2000) else None
    k = cache[key]
    ctx.check('a sum of masses of the envelope', k is not None)
    return z3.Real('log_mass_%d' % k) if k is not None else fresh('logsum', R)

class EnvLoop(LoopSpec):
    name = 'rejection'
    def begin(self, ls): ls.g.update(us=None, y=None)
    def end(self, ls): ls.ctx.contract.rejected(ls.ctx)
    def exit(self, ls):
        ls.g['exhausted'] = True
        for nm in ls.names(): ls.frame.locals.setdefault(nm, fresh('last', R))

class Envelope(FnContract):
    """proposal from the piecewise exponential envelope h >= f, accepted exactly when log w < log f(X) - log h(X)"""
    prop, target, title = 'C16', CORE + ':sampler_exact_convex_quartic', 'sampler of log-concave conditionals'
    loops = (EnvLoop(),)
    cut_concrete = True
    scenarios = ('quartic', 'generalised gamma')
    must_reach = ('pre', 'return')
    assumes = ('the potential is convex (even potential with nonnegative coefficients) and not constant around its minimum', 'roots of polynomials and scalar root finding are exact',
               'a uniform draw is almost surely in (0, 1) and differs from the thresholds', 'the allowed number of proposals is enough: the last rejected proposal is returned otherwise')
    cache = {}
    def mode(ctx, loc):
        g = ctx.ghost; m = z3.Real('mode')
        ctx.check('mode of the potential given', loc['P'] is g['P'] and (not g['gamma'] or to_real(loc['shape']) == g['shape']))
        g['mode'] = m
        if g['gamma']: ctx.assume(m > 0)
        return m
    def edges(ctx, loc):
        g = ctx.ghost
        ctx.check('edges of the potential given', loc['P'] is g['P'] and to_real(loc['mode']) == g['mode'] and (not g['gamma'] or to_real(loc['shape']) == g['shape']))
        b, a = z3.Reals('b_edge a_edge')
        ctx.assume([b < 0, a > 0] + ([b > -g['mode']] if g['gamma'] else []))
        g['a'], g['b'] = a / 2, b / 2
        # concavity of log f with maximum at 0, on its domain
        dom = g['dom'] = (lambda x: x > -g['mode']) if g['gamma'] else (lambda x: z3.BoolVal(True))
        ctx.assume([FF(a / 2) > FF(a), FF(b / 2) > FF(b)])
        return lib.to_arr(ctx, Lst([b, a]))
    uses = dict(FnContract.uses, **{CORE + ':find_mode_convex_quartic': mode, CORE + ':find_mode_convex_gen_gamma': mode,
                                    CORE + ':find_b_a_convex_quartic': edges, CORE + ':find_a_b_convex_gen_gamma': edges})
    externals = {'scipy.special.logsumexp': logsumexp, 'numpy.poly1d': poly1d}
    def setup(self, ctx):
        g = ctx.ghost; g['gamma'] = self.scenario != 'quartic'; g['contract'] = self
        g['shape'] = sh = z3.Real('shape') if g['gamma'] else None
        p = z3.Reals('p1 p2 p3 p4')
        # value of the potential: an uninterpreted function of the point, P(mode + x) = (shape - 1) log(mode + x) - logf(x)
        ctx.assume([p[1] != 0])
        if g['gamma']: ctx.assume(sh > 1)
        g['P'] = P = Poly([0] + list(p), fn=lambda x: self.value(ctx, x))
        g.update(us=None, y=None, mode=None, rng=Rng())
        return [P] + ([sh] if g['gamma'] else []), dict(random_state=g['rng'])
    def value(self, ctx, x):
        g = ctx.ghost
        if g['mode'] is None: raise Unsupported('potential evaluated before its mode is known')
        y = g['y'] = simp(to_real(x) - g['mode'])
        return (g['shape'] - 1) * LOG(to_real(x)) - FF(y) if g['gamma'] else -FF(y)
    def on_draw(self, ctx, d):
        g = ctx.ghost
        if d.method == 'rand':
            ctx.check('three uniform draws per proposal', g['us'] is None and len(d.dims) == 1 and concrete(d.dims[0]) == 3)
            u = [d.f(z3.IntVal(i)) for i in range(3)]
            ctx.assume([z3.And(x > 0, x < 1) for x in u])
            g['us'] = u
        elif free_uniform(ctx, d):
            g['one'] = g.get('one', []) + [d.u]
    def masses(self, ctx):
        """masses of the first 1, 2, 3, 4 pieces, and of all"""
        g = ctx.ghost; a, b = g['a'], g['b']
        F = lambda x: FF(simp(x))
        D, E = F(b) - F(2 * b), F(a) - F(2 * a)
        ma, mb = a / E, -b / D           # scales of the two tails
        mass = [(a - b) * EXP(F(z3.RealVal(0))), a * EXP(F(a)), -b * EXP(F(b)), ma * EXP(F(2 * a)), mb * EXP(F(2 * b))]
        # the left tail is truncated at the edge of the domain
        if g['gamma']: mass.append(-mb * EXP(F(b) + (1 + g['mode'] / b) * D))
        return [z3.Sum(mass[:k + 1]) if k else mass[0] for k in range(4)] + [z3.Sum(mass)]
    def spec(self, ctx):
        g = ctx.ghost; a, b = g['a'], g['b']; U, V, W = g['us']
        F = lambda x: FF(simp(x))
        D, E = F(b) - F(2 * b), F(a) - F(2 * a)
        # envelope: log f(0) on [b, a), log f(a) on [a, 2a), log f(b) on [2b, b), chords beyond
        H = lambda x: ((x < 2 * b, (b - x) * (D / b) + F(b), 'left tail'), (z3.And(x >= 2 * b, x < b), F(b), 'left shelf'), (z3.And(x >= b, x < a), F(z3.RealVal(0)), 'centre'),
                       (z3.And(x >= a, x < 2 * a), F(a), 'right shelf'), (x >= 2 * a, (a - x) * (E / a) + F(a), 'right tail'))
        ma, mb = a / E, -b / D
        lm = [z3.Real('log_mass_%d' % k) for k in range(5)]
        left = 2 * b + mb * LOG(1 - U * (1 - (EXP(-(g['mode'] + 2 * b) / mb) if g['gamma'] else 0)))
        Q = [b + (a - b) * U, a + a * U, b + b * U, 2 * a - ma * LOG(U), left]
        return H, Q, [LOG(V) + lm[4] <= lm[k] for k in range(4)], W
    def decided(self, ctx, x, acc):
        """x: the proposal, shifted by the mode"""
        H, Q, cut, W = self.spec(ctx)
        names = ('centre', 'right shelf', 'left shelf', 'right tail', 'left tail')
        for k in range(5):
            c = z3.And([z3.Not(cut[j]) for j in range(min(k, 4))] + ([cut[k]] if k < 4 else []))
            ctx.check('the proposal follows the envelope (inverse of its distribution function): %s' % names[k], z3.Implies(c, x == Q[k]))
        for dom, h, nm in H(x):
            ctx.check('proposals are accepted exactly by the ratio of the target to the envelope: %s' % nm, z3.Implies(dom, LOG(W) <= FF(x) - h if acc else LOG(W) >= FF(x) - h))
    def rejected(self, ctx):
        g = ctx.ghost
        ok = g['us'] is not None and g['y'] is not None
        ctx.check('a proposal is drawn and evaluated', ok)
        if ok: self.decided(ctx, g['y'], False)
    def on_return(self, ctx, v):
        g = ctx.ghost
        ok = isinstance(v, tuple) and len(v) == 2
        ctx.check('a pair is returned', ok)
        if not ok: raise PathEnd()
        if g.get('exhausted'): return
        ctx.check('a proposal is drawn', g['us'] is not None)
        if g['us'] is not None: self.decided(ctx, simp(to_real(v[0]) - g['mode']), True)

class Dominates(FnContract):
    prop, target, title = 'C16', 'lemma:Envelope', 'lemma: the piecewise envelope dominates a concave function with maximum at 0'
    must_reach = ()
    def run(self, ctx):
        a, b, x = z3.Reals('a b x')
        F = FF; o = z3.RealVal(0)
        ctx.assume([a > 0, b < 0, F(x) <= F(o), F(a) <= F(o), F(b) <= F(o)])
        conc = lambda u, v, w: z3.Implies(z3.And(u < v, v < w), (w - u) * F(v) >= (w - v) * F(u) + (v - u) * F(w))
        ctx.assume([conc(o, a, x), conc(a, 2 * a, x), conc(x, b, o), conc(x, 2 * b, b)])
        E, D = F(a) - F(2 * a), F(b) - F(2 * b)
        e, d = z3.Reals('e d')       # slopes
        ctx.assume([e * a == E, d * b == D])
        for what, dom, val in (('centre', z3.And(x >= b, x < a), F(o)), ('right shelf', z3.And(x >= a, x < 2 * a), F(a)), ('right tail', x >= 2 * a, (a - x) * e + F(a)),
                               ('left shelf', z3.And(x >= 2 * b, x < b), F(b)), ('left tail', x < 2 * b, (b - x) * d + F(b))):
            ctx.check('envelope above the function: %s' % what, z3.Implies(dom, F(x) <= val))

class Dispatch16(FnContract):
    """sampler_exact_convex_quartic with a shape: the special cases hand their own target to the matching sampler"""
    prop, target, title = 'C16', CORE + ':sampler_exact_convex_quartic', 'sampler of positive conditionals, special cases'
    scenarios = ('linear', 'shape < 1', 'shape = 1')
    assumes = ('a conditional without quadratic term has no cubic term', 'shape below 1: positive linear coefficient (even potential)')
    def lt1(ctx, loc):
        g = ctx.ghost
        ctx.check('only for shapes at most 1', g['shape'] <= 1)
        ctx.check('the same target is sampled', loc['P'] is g['P'] and to_real(loc['shape']) == g['shape'])
        ctx.check('with the generator given', loc['random_state'] is g['rng'])
        g['out'] = (z3.Real('X'), z3.Int('its')); return g['out']
    def tg(ctx, loc):
        g = ctx.ghost; p1, p2, p3 = g['p']
        b, mu, var, g3 = [to_real(loc[k]) for k in ('b', 'mu', 'var', 'g_3')]
        ctx.check('only for shape 1', g['shape'] == 1)
        ctx.check('the same target is sampled', z3.And(b == 0, var > 0, 2 * var * p2 == 1, mu + p1 * var == 0, g3 == p3))
        ctx.check('with the generator given', loc['random_state'] is g['rng'])
        g['out'] = (z3.Real('X'), z3.Int('its')); return g['out']
    uses = dict(FnContract.uses, **{CORE + ':gen_gamma_alpha_lt_1_sampler': lt1, CORE + ':trunc_gaussian_sampler': tg})
    def setup(self, ctx):
        sh, p1, p2, p3 = z3.Reals('shape p1 p2 p3')
        ctx.assume([sh > 0, p2 >= 0, p3 >= 0])
        if self.scenario == 'linear': ctx.assume([p1 > 0, p2 == 0, p3 == 0])
        elif self.scenario == 'shape < 1': ctx.assume([p1 > 0, p2 > 0, sh < 1])
        else: ctx.assume([p2 > 0, sh == 1])
        ctx.ghost.update(p=(p1, p2, p3), shape=sh, P=Poly([0, p1, p2, p3]), rng=Rng(), out=None)
        return [ctx.ghost['P'], sh], dict(random_state=ctx.ghost['rng'])
    def on_draw(self, ctx, d):
        g = ctx.ghost
        if d.method != 'gamma' or self.scenario != 'linear': return None
        sh, sc = to_real(lib.arg(d.args, d.kw, 0, 'shape')), to_real(lib.arg(d.args, d.kw, 1, 'scale', 1))
        ctx.check('no size is asked for', lib.arg(d.args, d.kw, 2, 'size') is None)
        ctx.check('gamma law of the target', z3.And(sh == g['shape'], sc * g['p'][0] == 1))
        g['out'] = (z3.Real('X'), 0)
        return g['out'][0]
    def on_return(self, ctx, v):
        g = ctx.ghost
        ctx.check('the sample drawn is returned', isinstance(v, tuple) and len(v) == 2 and g['out'] is not None and v[0] is g['out'][0])

class Shift(FnContract):
    """shift_pol(P, x0)(x) = P(x - x0)"""
    prop, target, title = 'C16', CORE + ':shift_pol', 'shifted polynomial'
    externals = {'numpy.poly1d': poly1d}
    def setup(self, ctx):
        c = [z3.Real('c%d' % k) for k in range(7)]; x0 = z3.Real('x0')
        ctx.ghost.update(P=Poly(c), x0=x0)
        return [ctx.ghost['P'], x0], {}
    def on_return(self, ctx, v):
        g = ctx.ghost
        ctx.check('a polynomial is returned', isinstance(v, Poly))
        if not isinstance(v, Poly): raise PathEnd()
        x = z3.Real('x')
        ctx.check('value at x', v.at(x) == g['P'].at(x - g['x0']))

class Find(FnContract):
    prop = 'C16'
    externals = {'numpy.poly1d': poly1d}
    assumes = ('numpy.poly1d.roots lists all roots, and the convex potentials have the stationary points looked for',)
    def shift(ctx, loc):
        """contract of shift_pol"""
        P, x0 = loc['P'], to_real(loc['x0'])
        return Poly.shift(P, x0)
    uses = dict(FnContract.uses, **{CORE + ':shift_pol': shift})
class ModeQuartic(Find):
    """a zero of P'"""
    target, title = CORE + ':find_mode_convex_quartic', 'mode of a quartic potential'
    def setup(self, ctx):
        c = z3.Reals('c1 c2 c3 c4'); ctx.ghost['c'] = c
        return [Poly([0] + list(c))], {}
    def on_return(self, ctx, v):
        c = ctx.ghost['c']; v = to_real(v)
        ctx.check('stationary point of the potential', c[0] + 2 * c[1] * v + 3 * c[2] * v * v + 4 * c[3] * v * v * v == 0)
class ModeGamma(Find):
    """a positive zero of (shape - 1) / x - P'(x)"""
    target, title = CORE + ':find_mode_convex_gen_gamma', 'mode of a generalised gamma law'
    def setup(self, ctx):
        c = z3.Reals('c1 c2 c3'); sh = z3.Real('shape'); ctx.assume(sh > 1); ctx.ghost.update(c=c, sh=sh)
        return [sh, Poly([0] + list(c))], {}
    def on_return(self, ctx, v):
        c, sh = ctx.ghost['c'], ctx.ghost['sh']; v = to_real(v)
        ctx.check('stationary point of the density', z3.And(v > 0, sh - 1 == v * (c[0] + 2 * c[1] * v + 3 * c[2] * v * v)))
class EdgesQuartic(Find):
    """the two points where P(mode + x) = P(mode) + 2 log 2"""
    target, title = CORE + ':find_b_a_convex_quartic', 'edges of the envelope, quartic'
    def setup(self, ctx):
        c = z3.Reals('c1 c2 c3 c4'); m = z3.Real('mode')
        P = ctx.ghost['P'] = Poly([0] + list(c)); ctx.ghost['m'] = m
        return [P, m], {}
    def on_return(self, ctx, v):
        g = ctx.ghost; v = lib.to_arr(ctx, v)
        ctx.check('two edges', v.ndim == 1 and concrete(v.axes[0].n) == 2)
        x, y = v.get(0), v.get(1)
        for what, t in (('left', x), ('right', y)):
            ctx.check('height at the %s edge' % what, g['P'].at(g['m'] + t) == g['P'].at(g['m']) + 2 * LOG(z3.RealVal(2)))
        ctx.check('left edge first', x <= y)
class EdgesGamma(Find):
    """-mode < b < 0, f(b) = 0 unless b = -mode/2, and f(a) = 0 for f(x) = log of (density at mode + x over 1/4 of the density at mode)"""
    target, title = CORE + ':find_a_b_convex_gen_gamma', 'edges of the envelope, generalised gamma'
    assumes = Find.assumes + ('scipy.optimize.brentq returns a zero of a continuous function between two points where its signs differ, newton returns a zero',)
    def root(where):
        def f(ctx, args, kw):
            g = ctx.ghost
            fn, rest = args[0], dict(kw)
            x = fresh('zero', R)
            if where == 'bracket':
                lo, hi = to_real(lib.arg(args, rest, 1, 'a')), to_real(lib.arg(args, rest, 2, 'b'))
                ctx.assume([x >= lo, x <= hi])
            else: lib.arg(args, rest, 1, 'x0'), rest.get('fprime'), rest.get('fprime2')
            ctx.assume(to_real(ctx.call(fn, [x], {})) == 0)
            return x
        return f
    def sign(ctx, args, kw):
        x = to_real(args[0])
        return z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))
    externals = dict(Find.externals, **{'scipy.optimize.brentq': root('bracket'), 'scipy.optimize.newton': root('open'), 'numpy.sign': sign})
    def setup(self, ctx):
        c = z3.Reals('c1 c2 c3'); m, sh = z3.Reals('mode shape'); ctx.assume([m > 0, sh > 1])
        ctx.assume([LOG(z3.RealVal(1)) == 0, LOG(z3.RealVal(2)) > 0])
        P = ctx.ghost['P'] = Poly([0] + list(c)); ctx.ghost.update(m=m, sh=sh)
        return [sh, P, m], {}
    def on_return(self, ctx, v):
        g = ctx.ghost; v = lib.to_arr(ctx, v); m, sh, P = g['m'], g['sh'], g['P']
        ctx.check('two edges', v.ndim == 1 and concrete(v.axes[0].n) == 2)
        b, a = v.get(0), v.get(1)
        f = lambda x: (sh - 1) * LOG(simp(1 + x / m)) - (P.at(m + x) - P.at(m) - 2 * LOG(z3.RealVal(2)))
        ctx.check('left edge inside the domain', z3.And(b > -m, b < 0))
        ctx.check('height at the left edge', z3.Or(f(b) == 0, 2 * b == -m))
        ctx.check('height at the right edge', f(a) == 0)


# ---------------------------------------------------------------- Gibbs sampler
EIGV = z3.Function('eig', I, I, R)      # eigenvalue k of the matrix after pass p
CLS = 'dppy.beta_ensemble_polynomial_potential:BetaEnsemblePolynomialPotential'

def zeros_outside(ls):
    N = ls.g['N']
    A, B_ = lib.elem_snap(ls.ctx, ls.v('a')), lib.elem_snap(ls.ctx, ls.v('b'))
    return [('diagonal coefficients outside 1..N are zero', All(lambda j: z3.Implies(z3.And(rng_in((j, N + 3)), z3.Or(j < 1, j > N)), A(j) == 0))),
            ('off-diagonal coefficients outside 1..N-1 are zero', All(lambda j: z3.Implies(z3.And(rng_in((j, N + 3)), z3.Or(j < 1, j > N - 1)), B_(j) == 0))),
            ('off-diagonal coefficients are not negative', All(lambda j: z3.Implies(rng_in((j, N + 3)), B_(j) >= 0)))]

class Passes(LoopSpec):
    name = 'passes'
    def inv(self, ls):
        g = ls.g; t = ls.it
        r = zeros_outside(ls)
        if g['ret'] == 'chain': r.append(('chain', Def('eig_vals', lambda k, q: z3.If(q < t, EIGV(q, k), z3.RealVal(0)))))
        if g['ret'] == 'largest': r.append(('largest', Def('lambda_max', lambda q: z3.If(q < t, EIGV(q, g['N'] - 1), z3.RealVal(0)))))
        return r
    def entry(self, ls): ls.ctx.check('number of passes', to_int(ls.n) == ls.g['passes'])
    def begin(self, ls): ls.g['pass'] = ls.it; ls.g['sites'] = False
    def end(self, ls): ls.ctx.check('a pass updates every site', ls.g['sites'])
    def exit(self, ls): ls.g['pass'] = None
class Sites(LoopSpec):
    name = 'sites'
    def inv(self, ls): return zeros_outside(ls)
    def entry(self, ls): ls.ctx.check('a pass visits N sites', to_int(ls.n) == ls.g['N'])
    def begin(self, ls):
        g = ls.g
        g.update(i=ls.it + 1, events=[], a0=lib.elem_snap(ls.ctx, ls.v('a')), b0=lib.elem_snap(ls.ctx, ls.v('b')), A=ls.v('a'), Bv=ls.v('b'))
    def exit(self, ls): ls.g['sites'] = True
    def end(self, ls):
        c, g = ls.ctx, ls.g; i, N = g['i'], g['N']
        ev = g['events']
        kinds = [e[0] for e in ev]
        last = c.truth(i == N)
        want = ['Pa', 'xa'] + ([] if last else ['Pb', 'xb'])
        c.check('updates of a site: a_i then b_i, in this order', kinds == want)
        if kinds != want: raise PathEnd()
        xa = ev[1][1]; xb = None if last else ev[3][1]
        A, B_ = lib.elem_snap(c, ls.v('a')), lib.elem_snap(c, ls.v('b'))
        c.check('a_i is replaced by its draw, the other diagonal coefficients are kept', All(lambda j: z3.Implies(rng_in((j, N + 3)), A(j) == z3.If(j == i, xa, g['a0'](j)))))
        c.check('b_i is replaced by its draw, the other off-diagonal coefficients are kept', All(lambda j: z3.Implies(rng_in((j, N + 3)), B_(j) == (g['b0'](j) if xb is None else z3.If(j == i, xb, g['b0'](j))))))
        g['events'] = []

def cond_use(which):
    def f(ctx, loc):
        g = ctx.ghost
        ctx.check('conditional of the current site', to_int(loc['i']) == g['i'])
        ctx.check('conditional for the potential', loc['V'] is g['V'])
        N = g['N']
        a, b = lib.to_arr(ctx, loc['a']), lib.to_arr(ctx, loc['b'])
        sa, sb = a.snap(), b.snap()
        xa = next((e[1] for e in g['events'] if e[0] == 'xa'), None)
        ctx.check('current coefficients are given', z3.And(to_int(a.axes[0].n) == N + 3, to_int(b.axes[0].n) == N + 3))
        cur = lambda j: g['a0'](j) if xa is None else z3.If(j == g['i'], xa, g['a0'](j))
        ctx.check('diagonal coefficients given', All(lambda j: z3.Implies(rng_in((j, N + 3)), sa(j) == cur(j))))
        ctx.check('off-diagonal coefficients given', All(lambda j: z3.Implies(rng_in((j, N + 3)), sb(j) == g['b0'](j))))
        # padding required by the contract of the conditionals
        ctx.check('padding of the diagonal', All(lambda j: z3.Implies(z3.And(rng_in((j, N + 3)), z3.Or(j < 1, j > N)), sa(j) == 0)))
        ctx.check('padding of the off-diagonal', All(lambda j: z3.Implies(z3.And(rng_in((j, N + 3)), z3.Or(j < 1, j > N - 1)), sb(j) == 0)))
        if which == 'b': ctx.check('off-diagonal sites are 1..N-1', z3.And(g['i'] >= 1, g['i'] <= N - 1))
        P = Poly([fresh('p%d' % k, R) for k in range(7)])
        g['events'].append(('P' + which, P))
        return P
    return f
def same_target(ctx, P, Q):
    """P = beta N / 2 Q up to a constant"""
    g = ctx.ghost
    ok = isinstance(P, Poly) and P.order is None
    ctx.check('a polynomial is sampled', ok)
    if not ok: raise PathEnd()
    for k in range(1, max(len(P.cs), len(Q.cs))):
        ctx.check('density exp(-beta N/2 P), coefficient %d' % k, P.coef(k) == g['beta'] * z3.ToReal(g['N']) / 2 * Q.coef(k))
def exact_use(ctx, loc):
    g = ctx.ghost
    shape = loc['shape']
    which = 'a' if shape is None else 'b'
    ok = bool(g['events']) and g['events'][-1][0] == 'P' + which
    ctx.check('the conditional of the coefficient has just been computed', ok)
    if not ok: raise PathEnd()
    same_target(ctx, loc['P'], g['events'][-1][1])
    ctx.check('the generator given is used', loc['random_state'] is g['rng'])
    if which == 'a': ctx.check('exact conditionals only on request', self_exact(ctx))
    else: ctx.check('power beta (N - i) / 2 - 1', to_real(shape) == g['beta'] * z3.ToReal(g['N'] - g['i']) / 2)
    x = fresh('x_' + which, R)
    if which == 'b': ctx.assume(x > 0)
    g['events'].append(('x' + which, x))
    return (x, fresh('its', I))
def self_exact(ctx): return ctx.ghost['exact']
def mala_use(ctx, loc):
    g = ctx.ghost
    ok = bool(g['events']) and g['events'][-1][0] == 'Pa'
    ctx.check('the conditional of the coefficient has just been computed', ok)
    if not ok: raise PathEnd()
    ctx.check('Langevin steps only without exact conditionals', not g['exact'])
    same_target(ctx, loc['V'], g['events'][-1][1])
    ctx.check('the generator given is used', loc['random_state'] is g['rng'])
    ctx.check('the chain starts from the current coefficient', to_real(loc['x']) == g['a0'](g['i']))
    ctx.check('number of Langevin steps', to_int(loc['nb_steps']) == g['steps'])
    ctx.check('positive step size', to_real(loc['sigma']) > 0)
    x = fresh('x_a', R)
    g['events'].append(('xa', x))
    return x
def tridiagonal(ctx, args, kw):
    g = ctx.ghost; N = g['N']
    d, e = lib.to_arr(ctx, lib.arg(args, kw, 0, 'd')), lib.to_arr(ctx, lib.arg(args, kw, 1, 'e'))
    sel, rg = kw.get('select'), kw.get('select_range')
    if set(kw) - {'d', 'e', 'select', 'select_range'}: raise Unsupported('options of eigvalsh_tridiagonal')
    ok = d.ndim == 1 and e.ndim == 1
    ctx.check('vectors of coefficients', ok)
    if not ok: raise PathEnd()
    top = ctx.frames[0].locals
    A, B_ = g['roles'](ctx)
    ds, es = d.snap(), e.snap()
    ctx.check('order N', z3.And(to_int(d.axes[0].n) == N, to_int(e.axes[0].n) == N - 1))
    ctx.check('the diagonal of J is a_1..a_N', All(lambda k: z3.Implies(rng_in((k, N)), ds(k) == A(k + 1))))
    ctx.check('the off-diagonal of J is the root of b_1..b_{N-1}', All(lambda k: z3.Implies(rng_in((k, N - 1)), z3.And(es(k) >= 0, es(k) * es(k) == B_(k + 1)))))
    p = g['pass']
    if p is None:
        if sel is not None: raise Unsupported('selection')
        # after the last pass
        g['final'] = lib.new(ctx, [N], R, lambda k: EIGV(g['passes'], k)); return g['final']
    ctx.check('all sites have been updated', g['sites'])
    if sel is None: return lib.new(ctx, [N], R, lambda k: EIGV(p, k))
    ctx.check('selection by index', sel == 'i' and isinstance(rg, tuple) and len(rg) == 2)
    lo, hi = [to_int(x) for x in rg]
    ctx.check('selected indices', z3.And(lo >= 0, hi <= N - 1, lo <= hi))
    return lib.new(ctx, [simp(hi - lo + 1)], R, lambda k: EIGV(p, lo + k))

class Gibbs(FnContract):
    """sample_mcmc: per pass, for i = 1..N, a_i from exp(-beta N/2 P_a) then (i < N) b_i from x^(beta (N-i)/2 - 1) exp(-beta N/2 P_b); eigenvalues of J"""
    prop, target, title = 'C16', CLS + '.sample_mcmc', 'Gibbs sampler'
    loops = (Passes(), Sites())
    cut_concrete = True
    scenarios = tuple((e, r) for e in ('langevin', 'exact') for r in ('last', 'chain', 'largest'))
    uses = dict(FnContract.uses, **{CORE + ':polynomial_in_negative_log_conditional_a_coef': cond_use('a'), CORE + ':polynomial_in_negative_log_conditional_b_coef': cond_use('b'),
                                    CORE + ':sampler_exact_convex_quartic': exact_use, CORE + ':sampler_mala': mala_use})
    externals = {'scipy.linalg.eigvalsh_tridiagonal': tridiagonal}
    assumes = ('scipy.linalg.eigvalsh_tridiagonal returns the eigenvalues of its argument in increasing order', 'a Gibbs pass leaves the law of J invariant, whose eigenvalues follow the beta-ensemble (Krishnapur, Rider, Virag)',
               'b_i > 0: the sampler of the positive conditionals returns a positive value')
    def setup(self, ctx):
        ex, ret = self.scenario
        N, p, s = z3.Ints('N passes steps'); beta = z3.Real('beta')
        ctx.assume([N >= 1, p >= 0, s >= 0, beta > 0])
        V, c, n = potential(ctx)
        # established by the constructor
        ctx.assume([n <= 6, c[5] == 0, c[0] == 0])
        mod = ctx.repo.module(CLS.split(':')[0])
        o = Obj(ClassVal(mod, mod.defs['BetaEnsemblePolynomialPotential'], CLS), dict(beta=beta, V=V, N=Opaque('previous N'), nb_gibbs_passes=Opaque('previous number')))
        rng = Rng()
        g = ctx.ghost
        g.update(N=N, passes=p, steps=s, beta=beta, V=V, c=c, n=n, rng=rng, exact=ex == 'exact', ret=ret, events=[], i=None, sites=True, final=None)
        g['pass'] = None
        def roles(c2):
            L = c2.frames[0].locals if c2.frames else {}
            for f in c2.frames:
                if 'a' in f.locals and 'b' in f.locals: L = f.locals; break
            else: raise MissingRole('a')
            return lib.elem_snap(c2, L['a']), lib.elem_snap(c2, L['b'])
        g['roles'] = roles
        return [o], dict(N=N, nb_gibbs_passes=p, sample_exact_cond=ex == 'exact', nb_mala_steps=s, return_chain_of_eig_vals=ret == 'chain', return_chain_of_lambda_max=ret == 'largest', random_state=rng)
    def allowed(self, ctx):
        g = ctx.ghost; c = g['c']
        return z3.And(c[3] == 0, g['n'] < 5, c[2] >= 0, c[4] >= 0)
    def on_raise(self, ctx, e):
        g = ctx.ghost
        ctx.check('refused only when exact conditionals are asked for and not log-concave, with ValueError', e.kind == 'ValueError' and g['exact'], kind='exception')
        ctx.check('log-concave conditionals are accepted', z3.Not(self.allowed(ctx)))
    def on_return(self, ctx, v):
        g = ctx.ghost; N = g['N']
        if g['exact']: ctx.check('exact sampling of conditionals that are not log-concave is refused', self.allowed(ctx))
        if g['ret'] == 'last':
            ctx.check('the eigenvalues of the last matrix are returned', g['final'] is not None and v is g['final']); return
        v = lib.to_arr(ctx, v); s = v.snap()
        if g['ret'] == 'chain':
            ctx.check('N x passes', v.ndim == 2)
            ctx.check('column p holds the eigenvalues after pass p', All(lambda k, q: z3.Implies(rng_in((k, N), (q, g['passes'])), s(k, q) == EIGV(q, k)), 2))
        else:
            ctx.check('one value per pass', v.ndim == 1)
            ctx.check('entry p is the largest eigenvalue after pass p', All(lambda q: z3.Implies(rng_in((q, g['passes'])), s(q) == EIGV(q, N - 1))))


class Init(FnContract):
    """the constructor accepts beta > 0 and even potentials of degree at most 6 without x^5 term and with nonnegative leading coefficient, refuses others
    with ValueError, and drops the constant without touching the polynomial given"""
    prop, target, title = 'C16', CLS + '.__init__', 'constructor'
    must_reach = ('pre', 'return', 'raise:ValueError')
    externals = {'numpy.poly1d': poly1d}
    def equi(ctx, loc): return (Opaque('equilibrium density'), Opaque('support'))
    uses = dict(FnContract.uses, **{CLS + '.__compute_equilibrium': equi})
    def setup(self, ctx):
        g = ctx.ghost
        V, c, n = potential(ctx); beta = z3.Real('beta')
        ctx.assume([z3.Implies(z3.And(n == k, n > 0), c[k] != 0) for k in range(1, 7)])
        mod = ctx.repo.module(CLS.split(':')[0])
        o = Obj(ClassVal(mod, mod.defs['BetaEnsemblePolynomialPotential'], CLS), {})
        g.update(o=o, c=c, n=n, beta=beta, V=V)
        return [o, beta, V], {}
    def fine(self, ctx):
        g = ctx.ghost; c, n = g['c'], g['n']
        return z3.And([g['beta'] > 0, n <= 6, c[5] == 0, n % 2 == 0] + [z3.Implies(n == k, c[k] >= 0) for k in (0, 2, 4, 6)])
    def on_raise(self, ctx, e):
        ctx.check('refusals are ValueError', e.kind == 'ValueError', kind='exception')
        ctx.check('admissible potentials are accepted', z3.Not(self.fine(ctx)))
    def on_return(self, ctx, v):
        g = ctx.ghost; c, n = g['c'], g['n']
        f = self.fine(ctx)
        ctx.check('inadmissible potentials are refused', z3.And(f.children()))
        V, b = g['o'].attrs.get('V'), g['o'].attrs.get('beta')
        ok = isinstance(V, Poly) and b is not None
        ctx.check('potential and beta are kept', ok)
        if not ok: raise PathEnd()
        ctx.check('beta', to_real(b) == g['beta'])
        ctx.check('no constant', V.coef(0) == 0)
        for k in range(1, 7): ctx.check('coefficient %d' % k, V.coef(k) == c[k])
        ctx.check('degree', to_int(V.degree(ctx)) == n)

CONTRACTS = [CondA, CondB, Mala, TruncGauss, GammaLt1, Envelope, Dominates, Dispatch16, Shift, ModeQuartic, ModeGamma, EdgesQuartic, EdgesGamma, Gibbs, Init]
