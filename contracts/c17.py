"""C17: multivariate Jacobi ensemble: multi-indices, norms, kernel, rejection bounds, proposal, chain rule"""
from .base import *
MOD = 'dppy.multivariate_jacobi_ope'
CLS = MOD + ':MultivariateJacobiOPE'
EJ = z3.Function('EJ', I, R, R, R, R)           # Jacobi polynomial P_n^(a,b)(x)
PI = lib.PI
half = z3.RealVal('1/2')

# ---------------------------------------------------------------- special functions (scipy.special)
def eval_jacobi(ctx, args, kw):
    if len(args) != 4 or kw: raise Unsupported('eval_jacobi')
    if not lib.isint(args[0] if lib.is_scalar(args[0]) else lib.to_arr(ctx, args[0]).get(*[z3.IntVal(0)] * lib.to_arr(ctx, args[0]).ndim)): raise Unsupported('Jacobi function of real degree')
    return lib.emap(ctx, lambda n, a, b, x: EJ(to_int(n), to_real(a), to_real(b), to_real(x)), R, *args)
def fn1(f):
    return lambda ctx, args, kw: lib.emap(ctx, lambda x: f(to_real(x)), R, args[0])
def fn2(f):
    return lambda ctx, args, kw: lib.emap(ctx, lambda x, y: f(to_real(x), to_real(y)), R, args[0], args[1])
lbeta = lambda p, q: LGAM(p) + LGAM(q) - LGAM(p + q)
SPECIAL = {'scipy.special.eval_jacobi': eval_jacobi, 'scipy.special.gammaln': fn1(LGAM), 'scipy.special.loggamma': fn1(LGAM), 'scipy.special.gamma': fn1(lambda x: EXP(LGAM(x))),
           'scipy.special.factorial': fn1(lambda x: EXP(LGAM(x + 1))), 'scipy.special.betaln': fn2(lbeta), 'scipy.special.beta': fn2(lambda p, q: EXP(lbeta(p, q))),
           'scipy.special.xlogy': fn2(lambda x, y: x * LOG(y))}
GAMMA = ('Gamma(x+1) = x Gamma(x), Gamma(1/2)^2 = pi, Gamma(1) = 1, B(p,q) = Gamma(p) Gamma(q) / Gamma(p+q)', 'scipy.special: gammaln, gamma, beta, betaln, factorial, xlogy, eval_jacobi are the functions of that name')

# ---------------------------------------------------------------- specification
def log_h(n, a, b):
    """log of the squared norm of P_n^(a,b) for the weight (1-x)^a (1+x)^b"""
    n = to_real(n)
    g = (a + b + 1) * LOG(z3.RealVal(2)) + LGAM(n + 1 + a) + LGAM(n + 1 + b) - LGAM(n + 1) - LGAM(n + 1 + a + b) - LOG(2 * n + 1 + a + b)
    g0 = (a + b + 1) * LOG(z3.RealVal(2)) + LGAM(a + 1) + LGAM(b + 1) - LGAM(a + b + 2)
    return g, g0
def h2(n, a, b):
    g, g0 = log_h(n, a, b)
    return z3.If(to_int(n) == 0, EXP(g0), EXP(g))
def log_c(n, a, b):
    """log of the bound of pi (1-x)^(a+1/2) (1+x)^(b+1/2) P_n^2 / h_n"""
    n_, n = n, to_real(n)
    mx, mn = z3.If(a >= b, a, b), z3.If(a <= b, a, b)
    g = LOG(z3.RealVal(2)) + LGAM(n + 1 + a + b) + LGAM(n + 1 + mx) - LGAM(n + 1) - 2 * mx * LOG(n + (a + b + 1) / 2) - LGAM(n + 1 + mn)
    m = (b - a) / (a + b + 1)
    g0 = z3.If(z3.And(a == -half, b == -half), z3.RealVal(0), LOG(PI) + (half + a) * LOG(1 - m) + (half + b) * LOG(1 + m) - log_h(0, a, b)[1])
    return z3.If(to_int(n_) == 0, g0, g)

class Setting:
    """d, parameters (a_j, b_j), multi-indices o(k, j)"""
    def __init__(self, ctx, narrow=True, d=None):
        N, dd, D = z3.Ints('N d deg_max')
        self.d = d = z3.IntVal(d) if d else dd
        self.N, self.D = N, D
        self.a, self.b, self.o, self.M = z3.Function('pa', I, R), z3.Function('pb', I, R), z3.Function('o', I, I, I), z3.Function('maxdeg', I, I)
        a, b = self.a, self.b
        ctx.assume([N >= 1, d >= 1, D >= 0, PI > z3.RealVal('3.1415'), PI < z3.RealVal('3.1416')])
        dom = lambda j: z3.And(a(j) >= -half, a(j) <= half, b(j) >= -half, b(j) <= half) if narrow else z3.And(a(j) > -1, b(j) > -1)
        ctx.assume(All(lambda j: z3.Implies(rng_in((j, d)), dom(j))))
        o, M = self.o, self.M
        ctx.assume(All(lambda k, j: z3.Implies(rng_in((k, N), (j, d)), z3.And(o(k, j) >= 0, o(k, j) <= M(j))), 2))
        ctx.assume(All(lambda j: z3.Implies(rng_in((j, d)), z3.And(M(j) >= 0, M(j) <= D))))
        self.params = lib.new(ctx, [d, 2], R, lambda j, c: lib.s_if(c == 0, a(j), b(j))); self.params.ro = True
        self.ordering = lib.new(ctx, [N, d], I, lambda k, j: o(k, j)); self.ordering.ro = True
    def self(self, ctx, **kw):
        """an object built by the constructor (its contract: Init)"""
        N, d, o, M, D = self.N, self.d, self.o, self.M, self.D
        self.hn = z3.Function('h2', I, I, R)
        ctx.assume(All(lambda n, j: self.hn(n, j) > 0, 2))
        ro = lambda A: (setattr(A, 'ro', True), A)[1]
        ctx.assume(All(lambda k: mk_prod(d, lambda j: self.hn(o(k, j), j)) > 0, name='a product of positive numbers is positive'))
        self.C = z3.Function('bound', I, R)
        mod = ctx.repo.module(MOD)
        att = dict(N=N, dim=concrete(d), jacobi_params=self.params, ordering=self.ordering, deg_max=D,
                   degrees_1D_polynomials=ro(lib.new(ctx, [D + 1, d], I, lambda t, j: z3.If(t > M(j), 0, t))),
                   norms_1D_polynomials=ro(lib.new(ctx, [D + 1, d], R, lambda t, j: SQRT(self.hn(t, j)))),
                   square_norms_multiD_polynomials=ro(lib.new(ctx, [N], R, lambda k: mk_prod(d, lambda j: self.hn(o(k, j), j)))),
                   mass_of_mu=z3.Real('mass'), rejection_bounds=ro(lib.new(ctx, [N], R, lambda k: self.C(k))))
        att.update(kw)
        return Obj(ClassVal(mod, mod.defs['MultivariateJacobiOPE'], CLS), att)
    def phi(self, x, k):
        """normalised polynomial of the multi-index k at the point x"""
        return mk_prod(self.d, lambda j: EJ(self.o(k, j), self.a(j), self.b(j), x(j)) / SQRT(self.hn(self.o(k, j), j)))

class C17(FnContract):
    prop = 'C17'
    externals = SPECIAL
    def exp_form(self, ctx): OPT['exp'] = True

# ---------------------------------------------------------------- polynomials, weight, kernel
class Eval(C17):
    """entry (i, k): product over the coordinates of the normalised Jacobi polynomials of degrees given by the k-th multi-index"""
    target, title = CLS + '.eval_multiD_polynomials', 'orthonormal polynomials'
    scenarios = ('one point', 'points')
    assumes = GAMMA[1:]
    def setup(self, ctx):
        S = Setting(ctx, False); s = S.self(ctx)
        m = z3.Int('m'); ctx.assume(m >= 1)
        if self.scenario == 'points': X, f = matrix(ctx, 'X', m, S.d)
        else: m = 1; X, g = vector(ctx, 'X', S.d); f = lambda i, j: g(j)
        ctx.ghost.update(S=S, f=f, m=m)
        return [s, X], {}
    def on_return(self, ctx, v):
        g = ctx.ghost; S, f = g['S'], g['f']
        ok = isinstance(v, Arr) and v.ndim == 2 and all(A.mask is None for A in v.axes)
        ctx.check('a matrix', ok)
        if not ok: raise PathEnd()
        ctx.check('a row per point', to_int(v.axes[0].n) == g['m'])
        ctx.check('a column per multi-index', to_int(v.axes[1].n) == S.N)
        s = v.snap()
        ctx.check('product of the polynomials of the multi-index', All(lambda i, k: z3.Implies(rng_in((i, to_int(g['m'])), (k, S.N)), s(i, k) == S.phi(lambda j: f(i, j), k)), 2))

class EvalW(C17):
    """weight: product of (1-x_j)^a_j (1+x_j)^b_j"""
    target, title = CLS + '.eval_w', 'weight function'
    def setup(self, ctx):
        S = Setting(ctx, False); s = S.self(ctx)
        m = z3.Int('m'); ctx.assume(m >= 1)
        X, f = matrix(ctx, 'X', m, S.d)
        ctx.assume(All(lambda i, j: z3.And(f(i, j) > -1, f(i, j) < 1), 2))
        ctx.ghost.update(S=S, f=f, m=m)
        return [s, X], {}
    def on_return(self, ctx, v):
        g = ctx.ghost; S, f = g['S'], g['f']
        ok = isinstance(v, Arr) and v.ndim == 1
        ctx.check('a vector', ok)
        if not ok: raise PathEnd()
        self.exp_form(ctx)
        s = v.snap()
        ctx.check('a value per point', to_int(v.axes[0].n) == g['m'])
        ctx.check('weight', All(lambda i: z3.Implies(rng_in((i, g['m'])), s(i) == mk_prod(S.d, lambda j: lib.POW(1 - f(i, j), S.a(j)) * lib.POW(1 + f(i, j), S.b(j))))))

def polynomials(ctx, loc):
    """contract of eval_multiD_polynomials (Eval)"""
    g = ctx.ghost; S = g['S']
    X = loc['X']
    ctx.check('the ensemble evaluates its own polynomials', loc['self'] is g['self'])
    X = lib.EXT['numpy.atleast_2d'](ctx, [X], {})
    lib.check_dim(ctx, X.axes[1].n, S.d, 'points have d coordinates')
    f = X.snap()
    return lib.new(ctx, [X.axes[0], S.N], R, lambda i, k: S.phi(lambda j: f(i, j), k))

class Kernel(C17):
    """K(X), K(X, Y), and their pointwise versions: sum over the multi-indices of the products of the polynomials"""
    target, title = CLS + '.K', 'kernel'
    scenarios = tuple('%s/%s' % (a, b) for a in ('Y None', 'Y is X', 'Y', 'points x, y', 'point x') for b in ('matrix', 'pointwise'))
    uses = dict(C17.uses, **{CLS + '.eval_multiD_polynomials': polynomials})
    def setup(self, ctx):
        S = Setting(ctx, False); s = S.self(ctx)
        which, how = self.scenario.split('/')
        m, q = z3.Ints('m q'); ctx.assume([m >= 1, q >= 1])
        g = ctx.ghost
        if which in ('points x, y', 'point x'):
            X, x1 = vector(ctx, 'X', S.d); Y, y1 = vector(ctx, 'Y', S.d)
            m = q = z3.IntVal(1); f, h = (lambda i, j: x1(j)), (lambda i, j: y1(j))
            if which == 'point x': Y, h = None, f
        else:
            if which == 'Y' and how == 'pointwise': q = m
            X, f = matrix(ctx, 'X', m, S.d)
            if which == 'Y': Y, h = matrix(ctx, 'Y', q, S.d)
            else: Y, h, q = (X if which == 'Y is X' else None), f, m
        g.update(S=S, self=s, f=f, h=h, m=m, q=q)
        return [s, X] + ([] if Y is None else [Y]), dict(eval_pointwise=True) if how == 'pointwise' else {}
    def on_return(self, ctx, v):
        g = ctx.ghost; S, f, h = g['S'], g['f'], g['h']
        how = self.scenario.split('/')[1]
        nd = 1 if how == 'pointwise' else 2
        ok = isinstance(v, Arr) and v.ndim == nd and all(A.mask is None for A in v.axes)
        ctx.check('shape', ok)
        if not ok: raise PathEnd()
        K = lambda i, l: mk_sum(S.N, lambda k: S.phi(lambda j: f(i, j), k) * S.phi(lambda j: h(l, j), k))
        s = v.snap()
        ctx.check('number of values', [to_int(v.axes[0].n) == g['m']] + ([to_int(v.axes[1].n) == g['q']] if nd == 2 else []))
        if nd == 1: ctx.check('entry i is K(x_i, y_i)', All(lambda i: z3.Implies(rng_in((i, g['m'])), s(i) == K(i, i))))
        else: ctx.check('entry (i, l) is K(x_i, y_l)', All(lambda i, l: z3.Implies(rng_in((i, g['m']), (l, g['q'])), s(i, l) == K(i, l)), 2))

# ---------------------------------------------------------------- norms, bounds, degrees
class Norms(C17):
    target, title = MOD + ':compute_norms_1D_polynomials', 'norms of the Jacobi polynomials'
    assumes = GAMMA
    def setup(self, ctx):
        S = Setting(ctx, False)
        ctx.ghost.update(S=S)
        return [S.params, S.D], {}
    def on_return(self, ctx, v):
        S = ctx.ghost['S']
        ok = isinstance(v, Arr) and v.ndim == 2
        ctx.check('a matrix', ok)
        if not ok: raise PathEnd()
        self.exp_form(ctx)
        s = v.snap()
        ctx.check('a row per degree, a column per coordinate', [to_int(v.axes[0].n) == S.D + 1, to_int(v.axes[1].n) == S.d])
        ctx.check('degree 0', All(lambda j: z3.Implies(rng_in((j, S.d)), s(z3.IntVal(0), j) == SQRT(EXP(log_h(0, S.a(j), S.b(j))[1])))))
        ctx.check('degree n', All(lambda n, j: z3.Implies(z3.And(n >= 1, n <= S.D, rng_in((j, S.d))), s(n, j) == SQRT(EXP(log_h(n, S.a(j), S.b(j))[0]))), 2))

def congr(ctx, what, x, g):
    """x = sum (product) over 0..n-1: obligation that its terms are g, then equality of the sums (products)"""
    if not z3.is_quantifier(x.arg(1)): return
    f = lambda j: z3.substitute_vars(x.arg(1).body(), j)
    ctx.check(what, All(lambda j: z3.Implies(z3.And(j >= 0, j < x.arg(0)), f(j) == g(j))))
    ctx.assume(x == (mk_sum if x.decl().eq(SUM) else mk_prod)(x.arg(0), g))

class Bounds(C17):
    """rejection bound of the multi-index k: exp of the sum over the coordinates of log_c"""
    target, title = MOD + ':compute_rejection_bounds', 'rejection bounds'
    scenarios = ('log scale', 'natural scale')
    assumes = GAMMA + ('Chow, Gatteschi and Wong (1994): for |a|, |b| <= 1/2, n >= 1, pi (1-x)^(a+1/2) (1+x)^(b+1/2) P_n^2 / h_n <= 2 Gamma(n+1+a+b) Gamma(n+1+max) / (n! (n+(a+b+1)/2)^(2max) Gamma(n+1+min))',)
    def setup(self, ctx):
        S = Setting(ctx, True)
        ctx.ghost.update(S=S)
        return [S.params, S.ordering], {} if self.scenario == 'log scale' else dict(log_scale=False)
    def on_return(self, ctx, v):
        S = ctx.ghost['S']
        ok = isinstance(v, Arr) and v.ndim == 1
        ctx.check('a vector', ok)
        if not ok: raise PathEnd()
        self.exp_form(ctx)
        s = v.snap()
        ctx.check('a bound per multi-index', to_int(v.axes[0].n) == S.N)
        k = fresh('k', I); ctx.assume(rng_in((k, S.N)))
        c = lambda j: log_c(S.o(k, j), S.a(j), S.b(j))
        e = simp(s(k))
        for x in subterms(e):
            if z3.is_app(x) and x.decl().eq(SUM): congr(ctx, 'bound of a coordinate', x, c)
            elif z3.is_app(x) and x.decl().eq(PROD): congr(ctx, 'bound of a coordinate', x, lambda j: EXP(c(j)))
        want = EXP(mk_sum(S.d, c))
        # exponentials turn sums into products
        ctx.assume(want == mk_prod(S.d, lambda j: EXP(c(j))))
        ctx.check('bound of the multi-index', e == want)

class Degrees(C17):
    target, title = MOD + ':compute_degrees_1D_polynomials', 'degrees to be evaluated'
    def setup(self, ctx):
        d = z3.Int('d'); ctx.assume(d >= 1)
        M, Mf = vector(ctx, 'M', d, sort=I)
        ctx.assume(All(lambda j: Mf(j) >= 0))
        ctx.ghost.update(d=d, Mf=Mf)
        return [M], {}
    def on_return(self, ctx, v):
        g = ctx.ghost; d, M = g['d'], g['Mf']
        ok = isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], Arr) and v[1].ndim == 2
        ctx.check('largest degree and degrees', ok)
        if not ok: raise PathEnd()
        D = to_int(v[0]); s = v[1].snap()
        ctx.check('largest degree', All(lambda j: z3.Implies(rng_in((j, d)), M(j) <= D)))
        ctx.check('shape', [to_int(v[1].axes[0].n) == D + 1, to_int(v[1].axes[1].n) == d])
        ctx.check('row n: degree n for the coordinates that need it', All(lambda n, j: z3.Implies(z3.And(n >= 0, n <= M(j), rng_in((j, d))), s(n, j) == n), 2))

class BoundZero(C17):
    """the bound of degree 0 dominates: p log(1-x) + q log(1+x) is largest at (q-p)/(p+q), p = a+1/2, q = b+1/2"""
    target, title = 'lemma:bound of degree 0', 'bound of degree 0'
    must_reach = ()
    assumes = ('log t <= t - 1',)
    def run(self, ctx):
        p, q, x = z3.Reals('p q x')
        ctx.assume([p >= 0, q >= 0, p + q > 0, x > -1, x < 1])
        m = z3.Real('m'); ctx.assume(m * (p + q) == q - p)
        ctx.check('mode in [-1, 1]', z3.And(m >= -1, m <= 1))
        u, w = z3.Reals('u w')              # log((1-x)/(1-m)), log((1+x)/(1+m))
        ctx.assume([z3.Implies(p > 0, u <= (1 - x) / (1 - m) - 1), z3.Implies(q > 0, w <= (1 + x) / (1 + m) - 1)])
        ctx.check('p > 0: (1 - m)(p + q) = 2 p', (1 - m) * (p + q) == 2 * p)
        ctx.check('q > 0: (1 + m)(p + q) = 2 q', (1 + m) * (p + q) == 2 * q)
        A, Bq = z3.Reals('A Bq')            # p u, q w
        ctx.assume([z3.Implies(p > 0, z3.And(A * 2 <= (1 - x) * (p + q) - 2 * p)), z3.Implies(p == 0, A == 0), z3.Implies(q > 0, Bq * 2 <= (1 + x) * (p + q) - 2 * q), z3.Implies(q == 0, Bq == 0)])
        ctx.check('p u + q w <= 0', A + Bq <= 0)

# ---------------------------------------------------------------- proposal: one multi-index, rejection from the arcsine measure
class ProposalLoop(LoopSpec):
    name = 'rejection'
    def entry(self, ls): ls.ctx.check('one multi-index is drawn per proposal', ls.g['ind'] is not None)
    def begin(self, ls): ls.g.update(B=None, us=[])
    def end(self, ls): self.decided(ls, False)
    def exit(self, ls): raise PathEnd()
    def on_break(self, ls): self.decided(ls, True)
    def decided(self, ls, acc):
        c, g = ls.ctx, ls.g; S = g['S']
        ok = g['B'] is not None and len(g['us']) == 1
        c.check('one point and one uniform draw', ok)
        if not ok: raise PathEnd()
        x = lib.to_arr(c, ls.v('x')); xs = x.snap()
        c.check('the point has d coordinates', x.ndim == 1 and to_int(x.axes[0].n) == S.d)
        B = g['B']
        j = fresh('j', I); c.assume(rng_in((j, S.d)))
        flip = c.prove(xs(j) == 2 * B(j) - 1)
        c.check('arcsine point', xs(j) == (2 * B(j) - 1 if flip else 1 - 2 * B(j)))
        f = c.contract.ratio(c, lambda j: xs(j))
        u, C = g['us'][0], S.C(g['ind'])
        if acc:
            c.check('points are accepted with the ratio of the density to the bound', u * C <= f)
            g['acc'] = xs
        else: c.check('points are only rejected by the ratio', u * C >= f)

class Proposal(C17):
    """multi-index k uniform, then rejection sampling of P_k^2 w from the arcsine measure"""
    target, title = CLS + '.sample_chain_rule_proposal', 'proposal'
    loops = (ProposalLoop(),)
    assumes = GAMMA[1:] + ('a uniform draw differs from the acceptance threshold', 'the allowed number of proposals is enough: the last rejected proposal is returned otherwise',
                           'rng.beta(1/2, 1/2): 1 - 2 B follows the arcsine law', 'the bound of a multi-index dominates the ratio (Bounds, BoundZero)')
    def setup(self, ctx):
        S = Setting(ctx, True); s = S.self(ctx)
        self.exp_form(ctx)
        n = z3.Int('nb_trials'); ctx.assume(n >= 1)
        ctx.assume(All(lambda k: S.C(k) > 0))
        ctx.ghost.update(S=S, ind=None, B=None, us=[], acc=None)
        return [s, n, Rng()], {}
    def ratio(self, ctx, x):
        S, k = ctx.ghost['S'], ctx.ghost['ind']
        a, b = S.a, S.b
        P = mk_prod(S.d, lambda j: EJ(S.o(k, j), a(j), b(j), x(j)))
        return P * P / mk_prod(S.d, lambda j: S.hn(S.o(k, j), j)) * mk_prod(S.d, lambda j: PI * lib.POW(1 - x(j), a(j) + half) * lib.POW(1 + x(j), b(j) + half))
    def on_draw(self, ctx, d):
        g = ctx.ghost; S = g['S']
        if d.method == 'u':
            ctx.uniforms.pop(d.u.get_id()); ctx.assume(d.u > 0); g['us'] = g['us'] + [d.u]
        elif d.method == 'randint':
            ctx.check('one multi-index per proposal', g['ind'] is None)
            ctx.check('multi-index uniform among the N', z3.And(to_int(d.lo) == 0, to_int(d.hi) == S.N))
            g['ind'] = d.i
        elif d.method == 'beta':
            p, q, size = (lib.arg(d.args, d.kw, i, n) for i, n in enumerate(('a', 'b', 'size')))
            for v in (p, q): ctx.check('proposals follow the arcsine law', lib.is_scalar(v) and to_real(v) == half)
            ctx.check('one draw per coordinate', lib.is_scalar(size) and to_int(size) == S.d)
            ctx.check('one point per trial', g['B'] is None)
            f = fresh_fn('B', I, R)
            ctx.assume(All(lambda j: z3.And(f(j) > 0, f(j) < 1)))
            g['B'] = f
            return lib.new(ctx, [S.d], R, lambda j: f(j))
    def on_return(self, ctx, v):
        g = ctx.ghost; S = g['S']
        ok = isinstance(v, Arr) and v.ndim == 1 and g['acc'] is not None
        ctx.check('a point is returned', ok)
        if not ok: raise PathEnd()
        s = v.snap()
        ctx.check('the accepted point is returned', All(lambda j: z3.Implies(rng_in((j, S.d)), s(j) == g['acc'](j))))

# ---------------------------------------------------------------- chain rule
from .c02 import Rows, RowLemma
from .proj import Residual, Telescope
TRI = 'dppy.random_matrices:mu_ref_beta_sampler_tridiag'

class Chain:
    """rows F(i): polynomials at the accepted points; K(i,l) = F(i).F(l); residual kernel and orthogonalised rows along 0, 1, 2, ..."""
    def __init__(self, ctx, N):
        self.N, self.F = N, z3.Function('F', I, I, R)
        F = self.F
        self.K = lambda i, l: mk_sum(N, lambda m: F(i, m) * F(l, m))
        self.S = S = Residual(ctx, N, N, N, self.K)
        ctx.assume(All(lambda t: S.j(t) == t, rw=True))
        self.rows = Rows(ctx, S, F)
    def phi(self, i, c): return self.rows.X(i, i, c) / SQRT(self.S.R(i, i, i))
    def B(self, n, i): return mk_sum(self.N, lambda m: self.phi(i, m) * self.F(n, m))
    def P(self, n, c): return mk_sum(n, lambda i: self.B(n, i) * self.phi(i, c))
    def lemmas(self, n):
        """(ChainLemma) the point n, orthogonalised against the points 0..n-1"""
        F, X, R_, N = self.F, self.rows.X, self.S.R, self.N
        return [All(lambda c: z3.Implies(rng_in((c, N)), self.P(n, c) == F(n, c) - X(n, n, c)), rw=True, name='rows (ChainLemma)'),
                mk_sum(N, lambda c: (F(n, c) - self.P(n, c)) * (F(n, c) - self.P(n, c))) == R_(n, n, n),
                mk_sum(N, lambda c: X(n, n, c) * X(n, n, c)) == R_(n, n, n),
                mk_sum(n, lambda i: self.B(n, i) * self.B(n, i)) == self.K(n, n) - R_(n, n, n)]

class ChainRows(RowLemma): prop = 'C17'
class ChainTele(Telescope): prop = 'C17'

class ChainLemma(C17):
    """projections on the normalised rows of the accepted points"""
    target, title = 'lemma:chain', 'orthogonalised rows of the chain rule (induction on t)'
    must_reach = ()
    def run(self, ctx):
        N, n, t, a, b, c, m = z3.Ints('N n t a b c m')
        ctx.assume([N >= 1, n >= 0, n < N, t >= 0, t < n, rng_in((a, N), (b, N), (c, N))])
        C = Chain(ctx, N); S, X, F = C.S, C.rows.X, C.F
        G = lambda t, a, b: mk_sum(N, lambda m: X(t, a, m) * X(t, b, m))
        ctx.check('Gram matrix of the rows, base', G(z3.IntVal(0), a, b) == S.R(0, a, b))
        ctx.assume(S.ok(n))
        ctx.assume(All(lambda t: z3.Implies(z3.And(t >= 0, t < n), z3.And(S.ok(t), S.R(t, t, t) > 0)), name='pivots'))
        # induction hypothesis and what RowLemma / Telescope prove
        ctx.assume(G(t, a, b) == S.R(t, a, b)); ctx.assume(G(t, a, t) == S.R(t, a, t)); ctx.assume(G(t, b, t) == S.R(t, b, t)); ctx.assume(G(t, t, t) == S.R(t, t, t))
        ctx.check('Gram matrix of the rows, step', G(t + 1, a, b) == S.R(t + 1, a, b))
        ctx.assume(mk_sum(N, lambda m: X(n, n, m) * X(n, n, m)) == S.R(n, n, n))
        i = fresh('i', I); ctx.assume(rng_in((i, n)))
        ctx.assume(C.rows.gram(i, n, i) == S.R(i, n, i))
        ctx.check('scalar products with the accepted rows', C.B(n, i) == S.R(i, n, i) / SQRT(S.R(i, i, i)))
        Bi = lambda i: S.R(i, n, i) / SQRT(S.R(i, i, i))
        ctx.assume(All(lambda i: z3.Implies(z3.And(i >= 0, i < n), C.B(n, i) == Bi(i)), rw=True, name='scalar products with the accepted rows'))
        ctx.sum_congr('projection', n, lambda i: C.B(n, i) * C.phi(i, c), lambda i: Bi(i) * C.phi(i, c))
        ctx.assume(C.rows.partial(n, n, c) == F(n, c) - X(n, n, c))
        ctx.check('projection on the accepted rows', C.P(n, c) == F(n, c) - X(n, n, c))
        ctx.assume(All(lambda c: z3.Implies(rng_in((c, N)), C.P(n, c) == F(n, c) - X(n, n, c)), rw=True))
        ctx.sum_congr('residual', N, lambda c: (F(n, c) - C.P(n, c)) * (F(n, c) - C.P(n, c)), lambda c: X(n, n, c) * X(n, n, c))
        ctx.sum_congr('squares', n, lambda i: C.B(n, i) * C.B(n, i), lambda i: Bi(i) * Bi(i))
        ctx.assume(S.partial(n, n, n) == S.K(n, n) - S.R(n, n, n))
        ctx.check('squared norm of the projection', mk_sum(n, lambda i: C.B(n, i) * C.B(n, i)) == C.K(n, n) - S.R(n, n, n))

class OuterLoop(LoopSpec):
    name = 'points'
    def entry(self, ls): ls.ctx.check('N points', to_int(ls.n) == ls.g['S'].N)
    def inv(self, ls):
        g, n = ls.g, ls.it; C, S = g['C'], g['S']
        return [('pivots are positive', C.S.ok(n)), ('each pivot is positive', All(lambda i: z3.Implies(z3.And(i >= 0, i < n), C.S.R(i, i, i) > 0))),
                Def('phi', lambda i, c: C.phi(i, c), cond=lambda i, c: i < n, what='rows of the accepted points'),
                Def('sample', lambda i, j: g['pt'](i, j), cond=lambda i, j: i < n, what='accepted points')]
    def begin(self, ls): ls.g.update(n=ls.it, done=False)
    def end(self, ls): ls.ctx.check('a point is accepted at each step', ls.g['done'])

class TrialLoop(LoopSpec):
    name = 'trials'
    def inv(self, ls):
        g = ls.g; C, n = g['C'], g['n']
        return [Def('phi', lambda i, c: C.phi(i, c), cond=lambda i, c: i < n, what='rows of the accepted points'),
                Def('sample', lambda i, j: g['pt'](i, j), cond=lambda i, j: i < n, what='accepted points')]
    def begin(self, ls): ls.g.update(x=None, us=[], evaluated=False)
    def end(self, ls): self.decided(ls, False)
    def exit(self, ls): raise PathEnd()
    def on_break(self, ls): self.decided(ls, True)
    def decided(self, ls, acc):
        c, g = ls.ctx, ls.g; C, n = g['C'], g['n']
        ok = g['x'] is not None and len(g['us']) == 1
        c.check('one proposal and one uniform draw', ok)
        if not ok: raise PathEnd()
        u = g['us'][0]; K, Rn = C.K(n, n), C.S.R(n, n, n)
        if acc:
            c.check('points are accepted with the ratio of the residual to the kernel', u * K <= Rn)
            c.assume(u * K <= Rn); c.assume(Rn > 0)
            g['done'] = True
        else: c.check('points are only rejected by the ratio', u * K >= Rn)

class Sample(C17):
    """chain rule: the n-th point is a proposal accepted with probability R(n)(x,x) / K(x,x), R(n) the residual kernel given the first n points"""
    target, title = CLS + '.sample', 'chain rule'
    loops = (OuterLoop(), TrialLoop())
    scenarios = ('d >= 2', 'tridiag_1D=False')
    assumes = Proposal.assumes[1:3] + ('K(x,x) > 0: the polynomial of degree 0 is a nonzero constant', 'lemma (checked in Lean): the residual is the Schur complement K(x,x) - K(x,Y) K(Y,Y)^-1 K(Y,x)')
    roles = dict(phi=lambda v: isinstance(v, Arr) and v.ndim == 2 and not v.ro and z3.is_expr(v.axes[1].n) and z3.eq(v.axes[1].n, z3.Int('N')),
                 sample=lambda v: isinstance(v, Arr) and v.ndim == 2 and not v.ro and z3.is_expr(v.axes[1].n) and z3.eq(v.axes[1].n, z3.Int('d')))
    must_reach = ('pre', 'return', 'trials:body')
    def setup(self, ctx):
        S = Setting(ctx, True); s = S.self(ctx)
        C = Chain(ctx, S.N)
        nb = z3.Int('nb_trials'); ctx.assume(nb >= 1)
        rng = Rng()
        ctx.ghost.update(S=S, C=C, self=s, rng=rng, pt=z3.Function('pt', I, I, R), x=None, us=[], n=None)
        if self.scenario == 'd >= 2':
            ctx.assume(S.d >= 2); return [s, nb, rng], {}
        return [s, nb, rng], dict(tridiag_1D=False)
    def proposal(ctx, loc):
        g = ctx.ghost; S, C, n = g['S'], g['C'], g['n']
        ctx.check('the ensemble makes its own proposals', loc['self'] is g['self'])
        ctx.check('proposals are drawn from the given generator', loc['random_state'] is g['rng'])
        nb = loc.get('nb_trials_max')
        ctx.check('one proposal per trial', g['x'] is None and n is not None)
        g['x'] = x = fresh_fn('x', I, R)
        ctx.assume(C.K(n, n) > 0)
        for f in C.lemmas(n): ctx.assume(f)
        ctx.assume(All(lambda j: g['pt'](n, j) == x(j)))
        return lib.new(ctx, [S.d], R, lambda j: x(j))
    def poly(ctx, loc):
        g = ctx.ghost; S, C, n = g['S'], g['C'], g['n']
        ctx.check('the ensemble evaluates its own polynomials', loc['self'] is g['self'])
        X = lib.to_arr(ctx, loc['X']); f = X.snap()
        ctx.check('polynomials are evaluated at one point', X.ndim == 1 or X.ndim == 2 and concrete(X.axes[0].n) == 1)
        at = (lambda j: f(j)) if X.ndim == 1 else (lambda j: f(z3.IntVal(0), j))
        if g['x'] is None: raise Unsupported('polynomials before the proposal')
        ctx.check('polynomials are evaluated at the proposal', All(lambda j: z3.Implies(rng_in((j, S.d)), at(j) == g['x'](j))))
        return lib.new(ctx, [1, S.N], R, lambda i, c: C.F(n, c))
    uses = dict(C17.uses, **{CLS + '.sample_chain_rule_proposal': proposal, CLS + '.eval_multiD_polynomials': poly})
    def on_draw(self, ctx, d):
        g = ctx.ghost
        if d.method == 'u':
            ctx.uniforms.pop(d.u.get_id()); ctx.assume([d.u > 0, d.u < 1]); g['us'] = g['us'] + [d.u]
        else: raise Unsupported('draw %s' % d.method)
    def on_return(self, ctx, v):
        g = ctx.ghost; S = g['S']
        ok = isinstance(v, Arr) and v.ndim == 2
        ctx.check('a matrix is returned', ok)
        if not ok: raise PathEnd()
        s = v.snap()
        ctx.check('N points in dimension d', [to_int(v.axes[0].n) == S.N, to_int(v.axes[1].n) == S.d])
        ctx.check('the accepted points are returned', All(lambda i, j: z3.Implies(rng_in((i, S.N), (j, S.d)), s(i, j) == g['pt'](i, j)), 2))

class SampleTri(C17):
    """d = 1: eigenvalues of the tridiagonal Jacobi model with parameters (a+1, b+1) on [0, 1], mapped to [-1, 1] by 1 - 2 x"""
    target, title = CLS + '.sample', 'tridiagonal model'
    assumes = ('mu_ref_beta_sampler_tridiag(a, b, beta=2, size): verified under C15',)
    def setup(self, ctx):
        S = Setting(ctx, False, d=1); s = S.self(ctx)
        rng = Rng()
        ctx.ghost.update(S=S, rng=rng, T=None)
        return [s], dict(random_state=rng)
    def tri(ctx, loc):
        g = ctx.ghost; S = g['S']
        ctx.check('parameters (a+1, b+1) of the tridiagonal model', z3.And(to_real(loc['a']) == S.a(0) + 1, to_real(loc['b']) == S.b(0) + 1))
        ctx.check('beta = 2, N points', z3.And(to_real(loc['beta']) == 2, to_int(loc['size']) == S.N))
        ctx.check('drawn from the given generator', loc['random_state'] is g['rng'] and g['T'] is None)
        g['T'] = t = fresh_fn('T', I, R)
        return lib.new(ctx, [S.N], R, lambda i: t(i))
    uses = dict(C17.uses, **{TRI: tri})
    def on_return(self, ctx, v):
        g = ctx.ghost; S = g['S']
        ok = isinstance(v, Arr) and v.ndim == 2 and g['T'] is not None
        ctx.check('a matrix is returned', ok)
        if not ok: raise PathEnd()
        s = v.snap()
        ctx.check('N points in dimension 1', [to_int(v.axes[0].n) == S.N, to_int(v.axes[1].n) == 1])
        ctx.check('the eigenvalues mapped to [-1, 1]', All(lambda i: z3.Implies(rng_in((i, S.N)), s(i, z3.IntVal(0)) == 1 - 2 * g['T'](i))))

# ---------------------------------------------------------------- ordering of the multi-indices
HAS = z3.Function('tuple_has', I, B); MAXT = z3.Int('tuple_max')
class Tup:
    """an arbitrary tuple of {0..hi-1}^d"""
    def __init__(self, hi): self.hi = hi
    def facts(self, ctx, e):
        for f in (z3.And(MAXT >= 0, MAXT < to_int(self.hi)), z3.Implies(HAS(e), z3.And(e >= 0, e <= MAXT)), z3.Implies(e == MAXT, HAS(e))):
            ctx.assume(All(lambda _, f=f: f))
    def v_contains(self, ctx, e):
        e = to_int(e); self.facts(ctx, e); return HAS(e)
    def v_ext(self, ctx, name, args, kw):
        if name in ('builtins.max', 'numpy.max', 'numpy.amax') and len(args) == 1 and not kw: return MAXT
        return NotImplemented
class Product:
    def __init__(self, hi, d): self.hi, self.d = hi, d
    def v_subst(self, s, i): return Product(z3.substitute(to_int(self.hi), (s, i)), self.d)
class Filtered:
    def __init__(self, src, pred): self.src, self.pred = src, pred
    def v_subst(self, s, i): return Filtered(self.src.v_subst(s, i), z3.substitute(to_bool(self.pred), (s, i)))
class Chained:
    def __init__(self, layers, stop=None, listed=False): self.layers, self.stop, self.listed = layers, stop, listed
    def v_list(self, ctx): return Chained(self.layers, self.stop, True)
    def v_getitem(self, ctx, ix):
        if not self.listed or not isinstance(ix, slice): raise Unsupported('item of a chain')
        if ix.step is not None or ix.start not in (None, 0): raise Unsupported('slice of the multi-indices')
        if self.stop is not None or ix.stop is None: raise Unsupported('slices of the multi-indices')
        return Chained(self.layers, ix.stop, True)

def it_product(ctx, args, kw):
    if len(args) != 1 or set(kw) - {'repeat'}: raise Unsupported('product')
    r = args[0]
    if not (isinstance(r, SRange) and concrete(r.lo) == 0 and concrete(r.step) == 1): raise Unsupported('product of %r' % (r,))
    return Product(r.hi, kw.get('repeat', 1))
def it_filter(ctx, args, kw):
    pred, src = args
    if not isinstance(src, Product): raise Unsupported('filter of %r' % (src,))
    p = ctx.call(pred, [Tup(src.hi)], {})
    return Filtered(src, lib.truthy(ctx, p) if not isinstance(p, bool) else z3.BoolVal(p))
def it_chain(ctx, args, kw):
    g = args[0]
    if not (isinstance(g, Lst) and getattr(g, 'lazy', False) and not g.concrete): raise Unsupported('chain of %r' % (g,))
    return Chained(g)
def it_islice(ctx, args, kw):
    c = args[0]
    if not isinstance(c, Chained) or c.stop is not None or len(args) != 2: raise Unsupported('islice')
    return Chained(c.layers, args[1])

class Ordering(C17):
    """layers m = 0, 1, ...: the tuples of {0..m}^d of maximum m; the first N are listed"""
    target, title = MOD + ':compute_ordering', 'multi-indices'
    externals = dict(SPECIAL, **{'itertools.product': it_product, 'builtins.filter': it_filter, 'itertools.chain.from_iterable': it_chain, 'itertools.islice': it_islice})
    assumes = ('itertools: product lists {0..m}^d without repetition, filter and chain keep the order, consumed lazily', 'N^(1/d): the rounding of the power does not lose more than the spare layer')
    def setup(self, ctx):
        N, d = z3.Ints('N d'); ctx.assume([N >= 1, d >= 1])
        ctx.ghost.update(N=N, d=d)
        return [N, d], {}
    def on_return(self, ctx, v):
        N, d = ctx.ghost['N'], ctx.ghost['d']
        if not isinstance(v, Chained): raise Unsupported('multi-indices not built from itertools: %r' % (v,))
        ctx.check('a list is returned', v.listed)
        ctx.check('N multi-indices are kept', v.stop is not None and to_int(v.stop) == N)
        L = to_int(v.layers.n)
        m = fresh('m', I); ctx.assume(rng_in((m, L)))
        f = v.layers.f(m)
        if isinstance(f, Product): f = Filtered(f, z3.BoolVal(True))
        if not isinstance(f, Filtered): raise Unsupported('layer %r' % (f,))
        ctx.check('tuples of length d', to_int(f.src.d) == d)
        ctx.check('layer m covers {0..m}^d', to_int(f.src.hi) >= m + 1)
        x = Tup(f.src.hi); x.facts(ctx, m)
        ctx.check('layer m: the tuples of maximum m', f.pred == (MAXT == m))
        # enough layers: (number of layers)^d >= N
        Lr, dr = z3.ToReal(L), z3.ToReal(d)
        for p in subterms(simp(L)):
            if z3.is_app(p) and p.decl().eq(lib.POW):
                x, y = p.arg(0), p.arg(1)
                ctx.assume(z3.Implies(z3.And(x > 0, y * dr == 1), p > 0))
                ctx.assume(z3.Implies(z3.And(x > 0, y * dr == 1, Lr >= p), lib.POW(Lr, dr) >= x))
        ctx.check('the layers hold at least N multi-indices', lib.POW(Lr, dr) >= z3.ToReal(N))

class Init(C17):
    """admissible parameters: a, b > -1 (d = 1), |a|, |b| <= 1/2 (d >= 2), N >= 1 integer; anything else is refused with ValueError"""
    target, title = CLS + '.__init__', 'constructor'
    scenarios = ('d = 1', 'd >= 2', 'd = 1, N float', 'd >= 2, N float')
    must_reach = ('pre',)
    def setup(self, ctx):
        N, d, D = z3.Ints('N d deg_max')
        if self.scenario[:5] == 'd = 1': d = z3.IntVal(1)
        else: ctx.assume(d >= 2)
        real = 'float' in self.scenario
        S = Setting.__new__(Setting)
        S.N, S.d, S.D = N, d, D
        S.a, S.b, S.o, S.M, S.C, S.hn = z3.Function('pa', I, R), z3.Function('pb', I, R), z3.Function('o', I, I, I), z3.Function('maxdeg', I, I), z3.Function('bound', I, R), z3.Function('h2', I, I, R)
        params = lib.new(ctx, [d, 2], R, lambda j, c: lib.s_if(c == 0, S.a(j), S.b(j))); params.ro = True
        mod = ctx.repo.module(MOD)
        s = Obj(ClassVal(mod, mod.defs['MultivariateJacobiOPE'], CLS), {})
        x = z3.Real('N_float')
        ok = (lambda j: z3.And(S.a(j) > -1, S.b(j) > -1)) if self.scenario[:5] == 'd = 1' else (lambda j: z3.And(S.a(j) >= -half, S.a(j) <= half, S.b(j) >= -half, S.b(j) <= half))
        ctx.ghost.update(S=S, params=params, self=s, real=real, ok=ok, vals={})
        return [s, x if real else N, params], {}
    def built(name):
        def f(ctx, loc):
            g = ctx.ghost; S, V = g['S'], g['vals']
            ctx.check('%s is built once' % name, name not in V)
            ps = loc.get('jacobi_params')
            if ps is not None: ctx.check('%s: parameters' % name, ps is g['params'])
            if name == 'ordering':
                ctx.check('ordering of N multi-indices in dimension d', z3.And(to_int(loc['N']) == S.N, to_int(loc['d']) == S.d))
                r = lib.new(ctx, [S.N, S.d], I, lambda k, j: S.o(k, j))
                ctx.assume(All(lambda k, j: z3.Implies(rng_in((k, S.N), (j, S.d)), S.o(k, j) >= 0), 2))
            elif name == 'degrees':
                m = lib.to_arr(ctx, loc['max_degrees']); f = m.snap()
                ctx.check('largest degrees: one per coordinate', to_int(m.axes[0].n) == S.d)
                ctx.check('largest degrees dominate the multi-indices', All(lambda k, j: z3.Implies(rng_in((k, S.N), (j, S.d)), S.o(k, j) <= f(j)), 2))
                ctx.assume(All(lambda j: z3.Implies(rng_in((j, S.d)), z3.And(S.M(j) == f(j), f(j) <= S.D))))
                ctx.assume(S.D >= 0)
                r = lib.new(ctx, [S.D + 1, S.d], I, lambda t, j: z3.If(t > S.M(j), 0, t))
                r = (S.D, r); V['deg_max'] = S.D; V[name] = r[1]; r[1].ro = True
                return r
            elif name == 'norms':
                ctx.check('norms up to the largest degree', to_int(loc['deg_max']) == S.D)
                ctx.assume(All(lambda n, j: S.hn(n, j) > 0, 2))
                r = lib.new(ctx, [S.D + 1, S.d], R, lambda t, j: SQRT(S.hn(t, j)))
            else:
                ctx.check('bounds of the multi-indices', loc['ordering'] is V.get('ordering'))
                r = lib.new(ctx, [S.N], R, lambda k: S.C(k))
            r.ro = True; V[name] = r
            return r
        return f
    uses = dict(C17.uses, **{MOD + ':compute_ordering': built('ordering'), MOD + ':compute_degrees_1D_polynomials': built('degrees'),
                             MOD + ':compute_norms_1D_polynomials': built('norms'), MOD + ':compute_rejection_bounds': built('bounds')})
    def on_return(self, ctx, v):
        g = ctx.ghost; S, V, s = g['S'], g['vals'], g['self'].attrs
        ctx.check('a number of points that is not an integer is refused', not g['real'])
        ctx.check('accepted: at least one point', S.N >= 1)
        ctx.check('accepted: parameters in the domain', All(lambda j: z3.Implies(rng_in((j, S.d)), g['ok'](j))))
        for n in ('N', 'dim', 'jacobi_params', 'ordering', 'deg_max', 'degrees_1D_polynomials', 'norms_1D_polynomials', 'square_norms_multiD_polynomials', 'mass_of_mu', 'rejection_bounds'):
            if n not in s: ctx.check('attribute %s' % n, False); raise PathEnd()
        ctx.check('N and d', z3.And(to_int(s['N']) == S.N, to_int(s['dim']) == S.d, to_int(s['deg_max']) == S.D))
        ctx.check('parameters, multi-indices, degrees, norms, bounds', s['jacobi_params'] is g['params'] and s['ordering'] is V.get('ordering') and s['degrees_1D_polynomials'] is V.get('degrees')
                  and s['norms_1D_polynomials'] is V.get('norms') and s['rejection_bounds'] is V.get('bounds') and V.get('bounds') is not None)
        q = s['square_norms_multiD_polynomials']
        ok = isinstance(q, Arr) and q.ndim == 1
        ctx.check('a squared norm per multi-index', ok)
        if not ok: raise PathEnd()
        f = q.snap(); want = lambda k: mk_prod(S.d, lambda j: S.hn(S.o(k, j), j))
        ctx.check('a squared norm per multi-index', to_int(q.axes[0].n) == S.N)
        ctx.check('squared norms of the multivariate polynomials', All(lambda k: z3.Implies(rng_in((k, S.N)), f(k) == want(k))))
        ctx.check('mass of the base measure', to_real(s['mass_of_mu']) == want(z3.IntVal(0)))
    def on_raise(self, ctx, e):
        g = ctx.ghost; S = g['S']
        ctx.check('refused with ValueError', e.kind == 'ValueError', kind='exception')
        if g['real']: return
        j = fresh('j', I); ctx.assume(S.N >= 1)
        bad = fresh('bad', I)
        ctx.assume(All(lambda j: z3.Implies(rng_in((j, S.d)), g['ok'](j))))
        ctx.check('admissible parameters are accepted', z3.BoolVal(False), kind='exception')

CONTRACTS = [Init, Eval, EvalW, Kernel, Norms, Bounds, Degrees, Ordering, BoundZero, Proposal, ChainRows, ChainTele, ChainLemma, Sample, SampleTri]
