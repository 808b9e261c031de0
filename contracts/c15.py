"""C15: coefficient laws of the banded matrix models (Dumitriu-Edelman, Killip-Nenciu).
The draws are uninterpreted: each one is recorded with its family and parameters, and the contract states which coefficient
of the matrix given to the eigenvalue solver is which draw."""
from .base import *

def half(x): return x / 2
class D:
    """a vector of independent draws: family, parameters at each index, location and scale of the values"""
    def __init__(self, fam, n, f, par=None, par2=None, loc=0, scale=1):
        self.fam, self.n, self.f, self.par, self.par2, self.loc, self.scale = fam, n, f, par, par2, loc, scale
    def std(self, i): return (self.f(i) - self.loc) / self.scale

def par(ctx, x):
    """a parameter given as a scalar or a vector: (length or None, index -> value)"""
    if lib.is_scalar(x): return None, lambda i: to_real(x)
    a = lib.to_arr(ctx, x)
    if a.ndim != 1: raise Unsupported('matrix of parameters')
    s = a.snap(); n = lib.axis_len(ctx, a.axes[0])
    return n, lambda i: to_real(s(i))

def vec(ctx, name, n, cond):
    f = fresh_fn(name, I, R)
    ctx.assume(All(lambda i: z3.Implies(rng_in((i, n)), cond(f(i)))))
    return f, lib.new(ctx, [n], R, lambda i: f(i))

def draw(ctx, d):
    a, kw, m, g = getattr(d, 'args', ()), getattr(d, 'kw', {}), d.method, ctx.ghost
    def size(i, *pars):
        sz = lib.arg(a, kw, i, 'size')
        if isinstance(sz, (tuple, Lst)):
            sz = sz[0] if isinstance(sz, tuple) and len(sz) == 1 else None
            if sz is None: raise Unsupported('matrix of draws')
        for n, _ in pars:
            if n is None: continue
            if sz is not None: ctx.check('parameters and size of a draw agree', to_int(sz) == to_int(n))
            sz = n
        if sz is None: raise Unsupported('scalar draw')
        sz = to_int(sz)
        ctx.check('nonnegative number of draws', sz >= 0, kind='definedness')
        return sz
    if m in ('normal', 'standard_normal', 'randn'):
        if m == 'normal': (_, loc), (_, sc), n = par(ctx, lib.arg(a, kw, 0, 'loc', 0)), par(ctx, lib.arg(a, kw, 1, 'scale', 1)), size(2)
        else:
            loc, sc = (lambda i: z3.RealVal(0)), (lambda i: z3.RealVal(1))
            if len(a) > 1: raise Unsupported('matrix of draws')
            n = size(0) if m == 'standard_normal' else to_int(a[0]) if a else None
            if n is None: raise Unsupported('scalar draw')
        loc, sc = loc(z3.IntVal(0)), sc(z3.IntVal(0))
        f, v = vec(ctx, 'normal', n, lambda x: z3.BoolVal(True))
        r = D('normal', n, f, loc=loc, scale=sc)
    elif m in ('gamma', 'standard_gamma', 'chisquare'):
        k = par(ctx, lib.arg(a, kw, 0, 'df' if m == 'chisquare' else 'shape'))
        if m == 'chisquare': k0 = k; k, sc = (k0[0], lambda i: k0[1](i) / 2), (None, lambda i: z3.RealVal(2))
        else: sc = par(ctx, lib.arg(a, kw, 1, 'scale', 1)) if m == 'gamma' else (None, lambda i: z3.RealVal(1))
        if sc[0] is not None: raise Unsupported('vector of scales')
        n = size(2 if m == 'gamma' else 1, k)
        ctx.check('gamma shapes are positive', All(lambda i: z3.Implies(rng_in((i, n)), k[1](i) > 0)), kind='definedness')
        f, v = vec(ctx, 'gamma', n, lambda x: x > 0)
        r = D('gamma', n, f, par=k[1], scale=sc[1](z3.IntVal(0)))
    elif m == 'beta':
        p, q = par(ctx, lib.arg(a, kw, 0, 'a')), par(ctx, lib.arg(a, kw, 1, 'b'))
        n = size(2, p, q)
        ctx.check('beta parameters are positive', All(lambda i: z3.Implies(rng_in((i, n)), z3.And(p[1](i) > 0, q[1](i) > 0))), kind='definedness')
        f, v = vec(ctx, 'beta', n, lambda x: z3.And(x > 0, x < 1))
        r = D('beta', n, f, par=p[1], par2=q[1])
    else: raise Unsupported('draw %s' % m)
    g['draws'].append(r)
    return v

def tridiag(ctx, args, kw):
    g = ctx.ghost
    if set(kw) - {'d', 'e'} or len(args) + len(kw) != 2: raise Unsupported('options of the eigenvalue solver')
    d, e = lib.to_arr(ctx, lib.arg(args, kw, 0, 'd')), lib.to_arr(ctx, lib.arg(args, kw, 1, 'e'))
    ctx.check('one matrix is diagonalised', g['J'] is None)
    g['J'] = (lib.axis_len(ctx, d.axes[0]), d.snap(), lib.axis_len(ctx, e.axes[0]), e.snap())
    g['eigs'] = Opaque('eigenvalues')
    return g['eigs']

ASSUMES = ("a Jacobi (CMV) matrix with these coefficient laws has the eigenvalue law of the beta-ensemble (Dumitriu-Edelman, Killip-Nenciu)", "RandomState normal, gamma and beta draws are independent with the laws they are asked for (numpy)", "scipy.linalg.eigvalsh_tridiagonal and eigvals return the eigenvalues of their argument")
class Tri(FnContract):
    assumes = ASSUMES
    prop = 'C15'
    must_reach = ('pre', 'return', 'raise:ValueError')
    externals = {'scipy.linalg.eigvalsh_tridiagonal': tridiag}
    def params(self, ctx): raise NotImplementedError
    def setup(self, ctx):
        N, beta = z3.Int('N'), z3.Real('beta')
        ctx.assume(N >= 1)
        g = ctx.ghost
        g.update(N=N, beta=beta, draws=[], J=None, eigs=None)
        return [], dict(self.params(ctx), beta=beta, size=N, random_state=Rng())
    def on_draw(self, ctx, d): return draw(ctx, d)
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)
        ctx.check('only a nonpositive beta is refused', ctx.ghost['beta'] <= 0)
    def on_return(self, ctx, v):
        g = ctx.ghost; N = g['N']
        ctx.check('a nonpositive beta is refused', g['beta'] > 0)
        ctx.check('the eigenvalues of the matrix are returned', g['eigs'] is not None and v is g['eigs'])
        if g['eigs'] is None: raise PathEnd()
        n, d, m, e = g['J']
        ctx.check('order of the matrix', z3.And(n == N, m == N - 1))
        self.coefficients(ctx, N, g['beta'], d, e, g['draws'])
    def pick(self, ctx, ds, fam, n, what):
        """the vector of n draws of the family (chosen among those whose length is known to be n)"""
        c = [d for d in ds if d.fam == fam and ctx.entailed(d.n == n) is True]
        ctx.check('draws: %s' % what, len(c) == 1)
        if len(c) != 1: raise PathEnd()
        return c[0]
    def off(self, ctx, e, want, n):
        """e_i = sqrt(want_i)"""
        ctx.check('off-diagonal coefficients', All(lambda i: z3.Implies(rng_in((i, n)), z3.And(e(i) >= 0, e(i) * e(i) == want(i)))))

class Hermite(Tri):
    target, title = 'dppy.random_matrices:mu_ref_normal_sampler_tridiag', 'tridiagonal Hermite model'
    def params(self, ctx):
        loc, sc = z3.Real('loc'), z3.Real('scale'); ctx.assume(sc > 0)
        ctx.ghost.update(loc=loc, scale=sc)
        return dict(loc=loc, scale=sc)
    def coefficients(self, ctx, N, beta, d, e, ds):
        loc, sc = ctx.ghost['loc'], ctx.ghost['scale']
        ctx.check('one vector of normal draws and one of gamma draws', sorted(x.fam for x in ds) == ['gamma', 'normal'])
        n, q = self.pick(ctx, ds, 'normal', N, 'N normal'), self.pick(ctx, ds, 'gamma', N - 1, 'N - 1 gamma')
        ctx.check('a_i = loc + scale * standard normal i', All(lambda i: z3.Implies(rng_in((i, N)), d(i) == loc + sc * n.std(i))))
        ctx.check('scale of the normal draws', n.scale > 0)
        ctx.check('shape of gamma draw i is beta/2 (N - i)', All(lambda i: z3.Implies(rng_in((i, N - 1)), q.par(i) == half(beta) * z3.ToReal(N - 1 - i))))
        ctx.check('scale of the gamma draws', q.scale > 0)
        self.off(ctx, e, lambda i: sc * sc * q.std(i), N - 1)

class Laguerre(Tri):
    target, title = 'dppy.random_matrices:mu_ref_gamma_sampler_tridiag', 'tridiagonal Laguerre model'
    def params(self, ctx):
        sh, sc = z3.Real('shape'), z3.Real('scale'); ctx.assume([sc > 0, sh > 0])
        ctx.ghost.update(shape=sh, scale=sc)
        return dict(shape=sh, scale=sc)
    def coefficients(self, ctx, N, beta, d, e, ds):
        sh, sc = ctx.ghost['shape'], ctx.ghost['scale']
        ctx.check('two vectors of gamma draws', [x.fam for x in ds] == ['gamma', 'gamma'])
        o, q = self.pick(ctx, ds, 'gamma', N, 'N gamma'), self.pick(ctx, ds, 'gamma', N - 1, 'N - 1 gamma')
        ctx.check('scales of the gamma draws', z3.And(o.scale > 0, q.scale > 0))
        ctx.check('odd shape i is beta/2 (N - i) + shape', All(lambda i: z3.Implies(rng_in((i, N)), o.par(i) == half(beta) * z3.ToReal(N - 1 - i) + sh)))
        ctx.check('even shape i is beta/2 (N - i)', All(lambda i: z3.Implies(rng_in((i, N - 1)), q.par(i) == half(beta) * z3.ToReal(N - 1 - i))))
        odd = lambda i: sc * o.std(i)
        even = lambda i: z3.If(i == 0, z3.RealVal(0), sc * q.std(i - 1))
        ctx.check('a_i = xi_{2i-2} + xi_{2i-1}', All(lambda i: z3.Implies(rng_in((i, N)), d(i) == odd(i) + even(i))))
        self.off(ctx, e, lambda i: odd(i) * even(i + 1), N - 1)

class Jacobi(Tri):
    target, title = 'dppy.random_matrices:mu_ref_beta_sampler_tridiag', 'tridiagonal Jacobi model'
    def params(self, ctx):
        a, b = z3.Real('a'), z3.Real('b'); ctx.assume([a > 0, b > 0])
        ctx.ghost.update(a=a, b=b)
        return dict(a=a, b=b)
    def coefficients(self, ctx, N, beta, d, e, ds):
        a, b = ctx.ghost['a'], ctx.ghost['b']
        ctx.check('two vectors of beta draws', [x.fam for x in ds] == ['beta', 'beta'])
        o, q = self.pick(ctx, ds, 'beta', N, 'N beta'), self.pick(ctx, ds, 'beta', N - 1, 'N - 1 beta')
        r = lambda i: half(beta) * z3.ToReal(N - 1 - i)
        ctx.check('odd canonical moment i is Beta(beta/2 (N - i) + a, beta/2 (N - i) + b)', All(lambda i: z3.Implies(rng_in((i, N)), z3.And(o.par(i) == r(i) + a, o.par2(i) == r(i) + b))))
        ctx.check('even canonical moment i is Beta(beta/2 (N - i), beta/2 (N - i - 1) + a + b)', All(lambda i: z3.Implies(rng_in((i, N - 1)), z3.And(q.par(i) == r(i), q.par2(i) == r(i + 1) + a + b))))
        codd = o.f; ceven = lambda i: z3.If(i == 0, z3.RealVal(0), q.f(i - 1))
        odd = lambda i: (1 - ceven(i)) * codd(i)
        even = lambda i: z3.If(i == 0, z3.RealVal(0), (1 - codd(i - 1)) * ceven(i))
        ctx.check('a_i = xi_{2i-2} + xi_{2i-1}', All(lambda i: z3.Implies(rng_in((i, N)), d(i) == odd(i) + even(i))))
        self.off(ctx, e, lambda i: odd(i) * even(i + 1), N - 1)

# ---------------------------------------------------------------- the ensemble classes
def model(kind):
    """contract of the tridiagonal (quindiagonal) models, proved above"""
    def use(ctx, loc):
        g = ctx.ghost
        ctx.check('the model is sampled with the generator', loc.get('random_state') is g['rng'])
        g['calls'].append((kind, {k: v for k, v in loc.items() if k != 'random_state'}))
        g['out'] = Opaque('points of ' + kind)
        return g['out']
    return use
MODELS = {'dppy.random_matrices:mu_ref_normal_sampler_tridiag': model('normal'), 'dppy.random_matrices:mu_ref_gamma_sampler_tridiag': model('gamma'),
          'dppy.random_matrices:mu_ref_beta_sampler_tridiag': model('beta'), 'dppy.random_matrices:mu_ref_unif_unit_circle_sampler_quindiag': model('circle')}

class Ens(FnContract):
    prop = 'C15'
    uses = dict(FnContract.uses, **MODELS)
    scenarios = ('beta>0', 'beta=0')
    def extra(self, ctx): return {}
    def setup(self, ctx):
        cname = self.target.split(':')[1].split('.')[0]
        mod = ctx.repo.module('dppy.beta_ensembles')
        N = z3.Int('N'); ctx.assume(N >= 1)
        beta = z3.Int('beta') if cname in ('CircularEnsemble', 'GinibreEnsemble') else z3.Real('beta')
        sc = self.scenario if isinstance(self.scenario, str) else self.scenario[0]
        ctx.assume(beta > 0 if sc == 'beta>0' else beta == 0)
        if sc == 'beta=0': beta = 0
        old = Lst(None, z3.Int('len_samples'), None, None); ctx.assume(old.n >= 0)
        rng, g = Rng(), ctx.ghost
        g.update(N=N, beta=beta, rng=rng, calls=[], out=None, samples=old, appended=[], iid=None)
        prev = {k: Opaque('previous ' + k) for k in self.keys}
        o = Obj(ClassVal(mod, mod.defs[cname], 'dppy.beta_ensembles:' + cname), dict(beta=beta, params=prev, sampling_mode=StrV(), name=StrV(), list_of_samples=old))
        g['self'] = o
        kw = self.extra(ctx)
        g['given'] = dict(kw)
        return [o], dict(kw, size_N=N, random_state=rng)
    def on_append(self, ctx, o, v):
        ctx.ghost['appended'].append((o, v)); o.n = simp(to_int(o.n) + 1)
    def same(self, ctx, what, v, w):
        if isinstance(w, Opaque): ok = isinstance(v, Opaque) and v.what == w.what
        elif v is None or not lib.is_scalar(v): ok = False
        else: ok = lib.cmp_eq(v, w)
        ctx.check(what, ok)
    def on_draw(self, ctx, d):
        g = ctx.ghost
        ctx.check('i.i.d. draws only for beta=0', simp(to_bool(lib.cmp_eq(g['beta'], 0))))
        ctx.check('one vector of i.i.d. draws', g['iid'] is None)
        g['iid'] = d; g['out'] = Opaque('i.i.d. draws')
        return g['out']
    def on_return(self, ctx, v):
        g = ctx.ghost; o = g['self']
        ctx.check('exactly one sample is recorded', len(g['appended']) == 1 and g['appended'][0][0] is g['samples'] and o.attrs.get('list_of_samples') is g['samples'])
        ctx.check('the points of the model are recorded', g['out'] is not None and len(g['appended']) == 1 and g['appended'][0][1] is g['out'])
        ctx.check('the points of the model are returned', v is g['out'])
        want = self.recorded(ctx)
        p = o.attrs.get('params')
        ctx.check('the parameters are recorded', isinstance(p, dict))
        for k, w in want.items(): self.same(ctx, 'recorded parameter %s' % k, p.get(k) if isinstance(p, dict) else None, w)
        if g['calls']:
            ctx.check('one model is sampled', len(g['calls']) == 1 and g['iid'] is None)
            kind, loc = g['calls'][0]
            ctx.check('the model of the ensemble', kind == self.kind)
            ctx.check('the model is sampled for positive beta', to_real(g['beta']) > 0)
            args = dict(self.passed(want), beta=g['beta'], size=g['N'])
            for k, w in args.items(): self.same(ctx, 'parameter %s of the model' % k, loc.get(k), w)
        else:
            ctx.check('i.i.d. reference draws', g['iid'] is not None and isinstance(g['iid'], Draw))
            self.reference(ctx, g['iid'], want)
    def generic(self, ctx, d, method, pars, want):
        ctx.check('family of the reference draws', d.method == method)
        if d.method != method: raise PathEnd()
        for i, k in enumerate(pars): self.same(ctx, 'parameter %s of the reference draws' % k, lib.arg(d.args, d.kw, i, k), want[k])
        self.same(ctx, 'number of reference draws', lib.arg(d.args, d.kw, len(pars), 'size'), ctx.ghost['N'])

class HermiteEns(Ens):
    target, title, kind, keys = 'dppy.beta_ensembles:HermiteEnsemble.sample_banded_model', 'Hermite ensemble, banded model', 'normal', ('loc', 'scale', 'size_N')
    def extra(self, ctx):
        sc = z3.Real('scale'); ctx.assume(sc > 0)
        return dict(loc=z3.Real('loc'), scale=sc)
    def recorded(self, ctx): return dict(ctx.ghost['given'], size_N=ctx.ghost['N'])
    def passed(self, w): return {k: w[k] for k in ('loc', 'scale')}
    def reference(self, ctx, d, w): self.generic(ctx, d, 'normal', ('loc', 'scale'), w)

class LaguerreEns(Ens):
    target, title, kind, keys = 'dppy.beta_ensembles:LaguerreEnsemble.sample_banded_model', 'Laguerre ensemble, banded model', 'gamma', ('shape', 'scale', 'size_N', 'size_M')
    scenarios = tuple((b, m) for b in ('beta>0', 'beta=0') for m in ('shape', 'size_M'))
    def extra(self, ctx):
        sh, sc = z3.Real('shape'), z3.Real('scale'); ctx.assume([sc > 0, sh > 0])
        if self.scenario[1] == 'shape': return dict(shape=sh, scale=sc)
        M = z3.Int('M'); ctx.assume(M >= 1)
        return dict(size_M=M)
    def recorded(self, ctx):
        g = ctx.ghost; N, beta = g['N'], to_real(g['beta'])
        if self.scenario[1] == 'shape':
            return dict(g['given'], size_N=N, **({} if self.scenario[0] == 'beta=0' else dict(size_M=2 / beta * g['given']['shape'] + z3.ToReal(N) - 1)))
        M = g['given']['size_M']
        return dict(shape=beta / 2 * z3.ToReal(M - N + 1), scale=z3.RealVal(2), size_N=N, size_M=M)
    def passed(self, w): return {k: w[k] for k in ('shape', 'scale')}
    def reference(self, ctx, d, w): self.generic(ctx, d, 'gamma', ('shape', 'scale'), w)
    must_reach = ('pre',)
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)
        g = ctx.ghost
        if self.scenario[1] == 'size_M': ctx.check('refused: M < N, or shape 0 when beta is 0', z3.Or(g['given']['size_M'] < g['N'], to_real(g['beta']) == 0))
        else: ctx.check('valid parameters are accepted', False)
        ctx.check('nothing is recorded by a refused call', not g['appended'])

class JacobiEns(Ens):
    target, title, kind, keys = 'dppy.beta_ensembles:JacobiEnsemble.sample_banded_model', 'Jacobi ensemble, banded model', 'beta', ('a', 'b', 'size_N', 'size_M1', 'size_M2')
    scenarios = tuple((b, m) for b in ('beta>0', 'beta=0') for m in ('a, b', 'size_M1, size_M2'))
    must_reach = ('pre',)
    def extra(self, ctx):
        a, b = z3.Real('a'), z3.Real('b'); ctx.assume([a > 0, b > 0])
        if self.scenario[1] == 'a, b': return dict(a=a, b=b)
        m1, m2 = z3.Int('M1'), z3.Int('M2'); ctx.assume([m1 >= 1, m2 >= 1])
        if self.scenario[0] == 'beta=0': ctx.assume([m1 < ctx.ghost.get('N', z3.Int('N'))])      # a = b = 0 otherwise: outside the domain
        return dict(size_M1=m1, size_M2=m2)
    def recorded(self, ctx):
        g = ctx.ghost; N, beta, gv = g['N'], to_real(g['beta']), g['given']
        if self.scenario[1] == 'a, b':
            if self.scenario[0] == 'beta=0': return dict(gv, size_N=N)
            return dict(gv, size_N=N, size_M1=2 / beta * gv['a'] + z3.ToReal(N) - 1, size_M2=2 / beta * gv['b'] + z3.ToReal(N) - 1)
        return dict(gv, size_N=N, a=beta / 2 * z3.ToReal(gv['size_M1'] - N + 1), b=beta / 2 * z3.ToReal(gv['size_M2'] - N + 1))
    def passed(self, w): return {k: w[k] for k in ('a', 'b')}
    def reference(self, ctx, d, w): self.generic(ctx, d, 'beta', ('a', 'b'), w)
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)
        g = ctx.ghost
        if self.scenario[1] == 'a, b': ctx.check('valid parameters are accepted', False)
        else: ctx.check('refused: M1 < N or M2 < N', z3.Or(g['given']['size_M1'] < g['N'], g['given']['size_M2'] < g['N']))
        ctx.check('nothing is recorded by a refused call', not g['appended'])


# ---------------------------------------------------------------- circular ensemble
class BD:
    """block diagonal matrix: list of (number of blocks, order, block index, row, column -> entry)"""
    def __init__(self, segs): self.segs = segs
    def v_dot(self, ctx, o): return Product(self, o)
    def v_method(self, ctx, name, args, kw):
        if name == 'dot' and len(args) == 1 and isinstance(args[0], BD) and not kw: return Product(self, args[0])
        return NotImplemented
    def v_binop(self, ctx, op, a, b):
        if op == 'MatMult' and isinstance(a, BD) and isinstance(b, BD): return Product(a, b)
        raise Unsupported('operator %s on block matrices' % op)
class Product:
    def __init__(self, a, b): self.a, self.b = a, b
    def v_method(self, ctx, name, args, kw):
        if name in ('toarray', 'todense', 'tocsr', 'tocsc', 'tocoo', 'copy') and not args and not kw: return self
        return NotImplemented
def block_diag(ctx, args, kw):
    kw.get('dtype'), kw.get('format')
    v = args[0]
    segs = []
    def add(n, x):
        if lib.is_scalar(x): segs.append((z3.IntVal(1), 1, lambda t, i, j: x)); return
        a = lib.to_arr(ctx, x)
        if a.ndim != 2 or concrete(a.axes[0].n) != 2 or concrete(a.axes[1].n) != 2: raise Unsupported('block')
        f = a.snap(); segs.append((z3.IntVal(1), 2, lambda t, i, j: f(i, j)))
    if isinstance(v, lib.Cat):
        for p in v.parts:
            if p[0] == 'item': add(1, p[1])
            else: segs.append(stack(ctx, p[3]))
    elif isinstance(v, Lst) and v.concrete or isinstance(v, tuple):
        for x in (v.items if isinstance(v, Lst) else v): add(1, x)
    else:
        segs.append(stack(ctx, v))
    return BD(segs)
def stack(ctx, v):
    if not (isinstance(v, Arr) and v.ndim == 3 and concrete(v.axes[1].n) == 2 and concrete(v.axes[2].n) == 2): raise Unsupported('blocks')
    return (to_int(lib.axis_len(ctx, v.axes[0])), 2, v.snap())
def spectrum(ctx, args, kw):
    g = ctx.ghost; A = args[0]
    if not isinstance(A, Product): return NotImplemented
    ctx.check('one matrix is diagonalised', g['J'] is None)
    g['J'] = A
    g['eigs'] = Opaque('eigenvalues')
    return g['eigs']
def norm(ctx, args, kw):
    """Euclidean norm of a vector of at least two entries"""
    a = lib.to_arr(ctx, args[0])
    if a.ndim != 1: raise Unsupported('matrix norm')
    f, n = a.snap(), to_int(lib.axis_len(ctx, a.axes[0]))
    ctx.check('norm of a vector of at least two entries', n >= 2)
    r = fresh('norm', R)
    ctx.assume([r > 0, r * r >= f(z3.IntVal(0)) * f(z3.IntVal(0)) + f(z3.IntVal(1)) * f(z3.IntVal(1))])
    ctx.ghost['norms'].append((f, n, r))
    return r
def cparts(x): return tuple(to_real(t) for t in lib.c_parts(x))
def ceq(x, y): return z3.And([a == b for a, b in zip(cparts(x), cparts(y))])

class Verblunsky(LoopSpec):
    name = 'verblunsky'
    def fresh_value(self, ls, name, old):
        if isinstance(old, Arr) and old.ndim == 1 and old is ls.v('alpha'):
            re, im = fresh_fn('re', I, R), fresh_fn('im', I, R)
            return lib.new(ls.ctx, old.axes, R, lambda i: lib.Cpx(re(i), im(i)))
        return NotImplemented
    def inv(self, ls):
        a = ls.v('alpha').snap(); N = ls.g['N']
        return [('coefficients are in the unit disk', All(lambda j: z3.Implies(z3.And(j >= 0, j < ls.it), (lambda p: p[0] * p[0] + p[1] * p[1] <= 1)(cparts(a(j))))))]
    def begin(self, ls):
        ls.g['draws'], ls.g['norms'] = [], []
        ls.a0 = ls.v('alpha').snap()
    def end(self, ls):
        ctx, g, k = ls.ctx, ls.g, ls.it - 1
        N, beta, a = g['N'], g['beta'], ls.v('alpha').snap()
        ctx.check('other coefficients are unchanged', All(lambda j: z3.Implies(z3.And(rng_in((j, N)), j != k), ceq(a(j), ls.a0(j)))))
        ctx.check('one normal vector per coefficient', [d.fam for d in g['draws']] == ['normal'])
        ctx.check('one norm per coefficient', len(g['norms']) == 1)
        if len(g['draws']) != 1 or len(g['norms']) != 1: raise PathEnd()
        d, (f, n, r) = g['draws'][0], g['norms'][0]
        ctx.check('Theta parameter: beta (N - i) + 2 normal draws for coefficient i', d.n == beta * (N - 1 - k) + 2)
        ctx.check('the norm is that of the drawn vector', n == d.n)
        ctx.check('the norm is that of the drawn vector (entries)', All(lambda j: z3.Implies(rng_in((j, n)), f(j) == d.f(j))))
        ctx.check('centred draws', z3.And(to_real(d.loc) == 0, to_real(d.scale) > 0))
        re, im = cparts(a(k))
        ctx.check('coefficient i is (g_0 + i g_1) / norm', z3.And(re * r == d.f(z3.IntVal(0)), im * r == d.f(z3.IntVal(1))))
        x, y = d.f(z3.IntVal(0)), d.f(z3.IntVal(1))
        ctx.check('lemma: unit disk', z3.Implies(z3.And(re * r == x, im * r == y, r > 0, r * r >= x * x + y * y), re * re + im * im <= 1))
    def exit(self, ls):
        ls.ctx.check('every coefficient is drawn', ls.it == ls.g['N'])
        ls.g['alpha'] = ls.v('alpha').snap()

class Circular(FnContract):
    assumes = ASSUMES
    prop, target, title = 'C15', 'dppy.random_matrices:mu_ref_unif_unit_circle_sampler_quindiag', 'quindiagonal circular model'
    def must_reach(self, sc): return ('pre', 'raise:ValueError') + (('return', 'verblunsky:body', 'verblunsky:exit') if sc == 'int' else ())
    loops = (Verblunsky(),)
    roles = {'alpha': lambda v: isinstance(v, Arr) and v.ndim == 1 and v.sort is not None and v.sort.eq(R)}
    externals = {'scipy.sparse.block_diag': block_diag, 'scipy.linalg.eigvals': spectrum, 'numpy.linalg.eigvals': spectrum, 'scipy.linalg.norm': norm, 'numpy.linalg.norm': norm}
    scenarios = ('int', 'float')
    def setup(self, ctx):
        N = z3.Int('N'); ctx.assume(N >= 1)
        beta = z3.Int('beta') if self.scenario == 'int' else z3.Real('beta')
        ctx.ghost.update(N=N, beta=beta, draws=[], norms=[], J=None, eigs=None)
        return [], dict(beta=beta, size=N, random_state=Rng())
    def on_draw(self, ctx, d): return draw(ctx, d)
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)
        ctx.check('only a beta which is not a positive integer is refused', ctx.ghost['beta'] <= 0 if self.scenario == 'int' else True)
    def on_return(self, ctx, v):
        g = ctx.ghost; N = g['N']
        ctx.check('a beta which is not a positive integer is refused', z3.And(g['beta'] > 0) if self.scenario == 'int' else False)
        ctx.check('the eigenvalues of the matrix are returned', g['eigs'] is not None and v is g['eigs'])
        if g['eigs'] is None or g.get('alpha') is None: raise PathEnd()
        al = g['alpha']
        odd = ctx.truth(N % 2 == 1)
        h = N / 2
        def theta(k):
            re, im = cparts(al(k))
            rho = SQRT(1 - SQRT(re * re + im * im) * SQRT(re * re + im * im))
            return [[lib.Cpx(re, -im), rho], [rho, lib.Cpx(-re, -im)]]
        last = lib.Cpx(cparts(al(N - 1))[0], -cparts(al(N - 1))[1])
        one = [(z3.IntVal(1), 1, lambda t, i, j: 1)]
        end = [(z3.IntVal(1), 1, lambda t, i, j: last)]
        blocks = lambda n, off: [(n, 2, lambda t, i, j: theta(simp(2 * t + off))[i][j])]
        if odd: L, M = blocks(h, 0) + end, one + blocks(h, 1)
        else: L, M = blocks(h, 0), one + blocks(h - 1, 1) + end
        P = g['J']
        if len(P.a.segs) and P.a.segs[0][1] == 1 and not (P.b.segs and P.b.segs[0][1] == 1): P = Product(P.b, P.a)   # same spectrum
        self.blocks(ctx, 'L', P.a, L); self.blocks(ctx, 'M', P.b, M)
    def blocks(self, ctx, what, B, want):
        ctx.check('%s: sequence of blocks' % what, len(B.segs) == len(want) and all(x[1] == y[1] for x, y in zip(B.segs, want)))
        if len(B.segs) != len(want): raise PathEnd()
        for (n, s, f), (n2, s2, f2) in zip(B.segs, want):
            if s != s2: raise PathEnd()
            ctx.check('%s: number of blocks' % what, to_int(n) == n2)
            for i in range(s):
                for j in range(s):
                    ctx.check('%s: entry %d, %d of the blocks' % (what, i, j), All(lambda t: z3.Implies(rng_in((t, n2)), ceq(f(t, i, j), f2(t, i, j)))))

def exp_circle(ctx, args, kw):
    """exp(i theta): the contract asks for theta = 2 pi u, u uniform"""
    a = lib.to_arr(ctx, args[0])
    if a.ndim != 1: return NotImplemented
    f, n, g = a.snap(), lib.axis_len(ctx, a.axes[0]), ctx.ghost
    j = fresh('j', I)
    if not isinstance(f(j), lib.Cpx): return NotImplemented
    ctx.check('uniform angles are drawn', g['iid'] is not None)
    if g['iid'] is None: raise PathEnd()
    u = g['iid'].f
    ctx.check('number of reference draws', z3.And(to_int(n) == g['N'], to_int(g['iid'].dims[0]) == g['N']))
    ctx.check('reference points are exp(2 i pi u)', All(lambda i: z3.Implies(rng_in((i, g['N'])), ceq(f(i), lib.Cpx(0, 2 * lib.PI * u(i))))))
    g['out'] = Opaque('uniform points of the circle')
    return g['out']
class CircularEns(Ens):
    target, title, kind, keys = 'dppy.beta_ensembles:CircularEnsemble.sample_banded_model', 'circular ensemble, banded model', 'circle', ('size_N',)
    externals = {'numpy.exp': exp_circle}
    def recorded(self, ctx): return dict(size_N=ctx.ghost['N'])
    def passed(self, w): return {}
    def on_draw(self, ctx, d):
        g = ctx.ghost
        ctx.check('i.i.d. draws only for beta=0', simp(to_bool(lib.cmp_eq(g['beta'], 0))))
        ctx.check('one vector of uniform draws', g['iid'] is None and d.method == 'rand' and len(d.dims) == 1)
        g['iid'] = d
    def reference(self, ctx, d, w): pass

CONTRACTS = [Hermite, Laguerre, Jacobi, Circular, HermiteEns, LaguerreEns, JacobiEns, CircularEns]
