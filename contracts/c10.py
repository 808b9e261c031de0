"""C10: BLESS"""
from .points import *

TAU = z3.Function('TAU', I, R)          # leverage score estimated from the current dictionary at the new regularisation, by point
DICT = 'CentersDictionary'

class Diag10(Diagonal): prop = 'C10'

class StableFilter(FnContract):
    """stable_filter: the directions whose eigenvalue exceeds a nonnegative threshold, eigenvectors and eigenvalues in step"""
    prop, target, title = 'C10', 'dppy.utils:stable_filter', 'numerically nonzero directions'
    must_reach = ('pre', 'return', 'raise:ValueError')
    def setup(self, ctx):
        n = z3.Int('n'); ctx.assume(n >= 1)
        (V, v), (e, ev) = matrix(ctx, 'V', n, n), vector(ctx, 'e', n)
        ctx.ghost.update(n=n, v=v, e=ev)
        return [V, e], {}
    def on_return(self, ctx, r):
        g = ctx.ghost; n, v, e = g['n'], g['v'], g['e']
        ctx.check('a pair is returned', isinstance(r, tuple) and len(r) == 2)
        V, E = [lib.to_arr(ctx, x) for x in r]
        filtered(ctx, V, E, n, lambda i, a: v(i, a), lambda a: e(a))
        A = E.axes[0]
        ctx.check('the eigenvalues kept are positive', All(lambda a: z3.Implies(A.dom(a), e(a) > 0)))
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)
        g = ctx.ghost
        # refused only if an eigenvalue is not positive
        saved = list(ctx.hyps)
        ctx.assume(All(lambda a: z3.Implies(rng_in((a, g['n'])), g['e'](a) > 0)))
        ctx.check('matrices with positive eigenvalues are accepted', False)
        ctx.hyps = saved
    def witness(self, ctx, A): return z3.IntVal(0)

def filtered(ctx, V, E, n, v, e):
    ok = V.ndim == 2 and E.ndim == 1 and E.axes[0].mask is not None and V.axes[1].mask is not None and V.axes[0].mask is None
    ctx.check('columns and eigenvalues of a selection', ok)
    if not ok: raise PathEnd()
    A, B_ = E.axes[0], V.axes[1]
    ctx.check('all rows are kept', to_int(V.axes[0].n) == n)
    ctx.check('selection among the n directions', z3.And(to_int(A.n) == n, to_int(B_.n) == n))
    ctx.check('eigenvectors and eigenvalues are selected alike', All(lambda a: z3.Implies(rng_in((a, n)), A.mask(a) == B_.mask(a))))
    vs, es = V.snap(), E.snap()
    ctx.check('eigenvectors kept', All(lambda i, a: z3.Implies(rng_in((i, n), (a, n)), vs(i, a) == v(i, a)), 2))
    ctx.check('eigenvalues kept', All(lambda a: z3.Implies(rng_in((a, n)), es(a) == e(a))))

def stable(ctx, loc):
    """contract of stable_filter"""
    V, e = lib.to_arr(ctx, loc['eigenvec']), lib.to_arr(ctx, loc['eigenval'])
    n = V.axes[0].n
    ctx.check('square matrix of eigenvectors', z3.And(to_int(V.axes[1].n) == to_int(n), to_int(e.axes[0].n) == to_int(n)))
    if ctx.decide(2, 'negative eigenvalue'): raise PyRaise('ValueError')
    keep = fresh_fn('keep', I, B)
    v, s = V.snap(), e.snap()
    ctx.assume(All(lambda a: z3.Implies(z3.And(rng_in((a, to_int(n))), keep(a)), s(a) > 0)))
    A = Axis(n, lambda a: keep(a))
    ctx.ghost['keep'] = keep
    return (lib.new(ctx, [n, A], R, lambda i, a: v(i, a)), lib.new(ctx, [A], R, lambda a: s(a)))

class InvertRoot(FnContract):
    """stable_invert_root: the same directions, and the inverse square roots of the eigenvalues as a column"""
    prop, target, title = 'C10', 'dppy.utils:stable_invert_root', 'inverse square root'
    uses = dict(FnContract.uses, **{'dppy.utils:stable_filter': stable})
    def setup(self, ctx): return StableFilter.setup(self, ctx)
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)
    def on_return(self, ctx, r):
        g = ctx.ghost; n, v, e, keep = g['n'], g['v'], g['e'], g['keep']
        ctx.check('a pair is returned', isinstance(r, tuple) and len(r) == 2)
        V, E = [lib.to_arr(ctx, x) for x in r]
        ok = V.ndim == 2 and E.ndim == 2 and E.axes[0].mask is not None and V.axes[1].mask is not None
        ctx.check('a column of inverse roots', ok)
        if not ok: raise PathEnd()
        ctx.check('column', to_int(E.axes[1].n) == 1)
        vs, es = V.snap(), E.snap()
        for what, A in (('eigenvectors', V.axes[1]), ('inverse roots', E.axes[0])):
            ctx.check('directions of the %s' % what, All(lambda a: z3.Implies(rng_in((a, n)), A.mask(a) == keep(a))))
        ctx.check('eigenvectors', All(lambda i, a: z3.Implies(z3.And(rng_in((i, n), (a, n)), keep(a)), vs(i, a) == v(i, a)), 2))
        ctx.check('inverse roots', All(lambda a: z3.Implies(z3.And(rng_in((a, n)), keep(a)), z3.And(es(a, z3.IntVal(0)) > 0, es(a, z3.IntVal(0)) * es(a, z3.IntVal(0)) * e(a) == 1))))

def invroot(ctx, loc):
    """contract of stable_invert_root"""
    V, e = stable(ctx, loc)
    A = e.axes[0]; s = e.snap()
    r = fresh_fn('invroot', I, R)
    ctx.assume(All(lambda a: z3.Implies(A.dom(a), z3.And(r(a) > 0, r(a) * r(a) * s(a) == 1))))
    ctx.ghost['r'] = r
    return V, lib.new(ctx, [A, 1], R, lambda a, j: r(a))

def svd(ctx, args, kw):
    """singular value decomposition of a symmetric positive semi-definite matrix: its eigendecomposition"""
    a = lib.to_arr(ctx, args[0])
    if kw or len(args) != 1 or a.ndim != 2: raise Unsupported('options of svd')
    n = a.axes[0].n
    s = a.snap()
    ctx.check('square matrix decomposed', to_int(a.axes[1].n) == to_int(n))
    ctx.check('symmetric matrix decomposed', All(lambda i, j: z3.Implies(rng_in((i, to_int(n)), (j, to_int(n))), s(i, j) == s(j, i)), 2))
    U, S = fresh_fn('U', I, I, R), fresh_fn('S', I, R)
    ctx.assume(All(lambda i: z3.Implies(rng_in((i, to_int(n))), S(i) >= 0)))
    ctx.check('one decomposition', ctx.ghost.get('svd') is None)
    ctx.ghost['svd'] = (n, s, U, S)
    return (lib.new(ctx, [n, n], R, lambda i, a: U(i, a)), lib.new(ctx, [n], R, lambda a: S(a)), lib.new(ctx, [n, n], R, lambda a, i: U(i, a)))

def dictionary(ctx, name, n=None, lam=None, q=None, cls=None, d=None):
    """a dictionary on its own: points xd(0..m-1) with probabilities"""
    m = z3.Int(name + '_m'); ctx.assume(m >= 1)
    X, x = data(ctx, name + '_x', m, d if d is not None else z3.Int('d'))
    P, p = vector(ctx, name + '_p', m)
    ctx.assume(All(lambda i: z3.Implies(rng_in((i, m)), p(i) > 0)))
    ix, _ = vector(ctx, name + '_idx', m, sort=I)
    l, qq = lam if lam is not None else z3.Real(name + '_lam'), q if q is not None else z3.Real(name + '_q')
    ctx.assume([to_real(l) > 0, to_real(qq) > 0])
    o = Obj(cls or NTClass(DICT, ['idx', 'X', 'probs', 'lam', 'rls_oversample']), dict(idx=ix, X=X, probs=P, lam=l, rls_oversample=qq))
    o.ro = True
    return o, m, x, p

class Estimate(FnContract):
    """estimate_rls_bless: (L_ii - L_iD (L_DD + lam diag(p))^-1 L_Di) / lam, the inverse being the spectral one of the matrix decomposed"""
    prop, target, title = 'C10', 'dppy.bless:estimate_rls_bless', 'leverage score estimate'
    uses = dict(FnContract.uses, **{'dppy.utils:evaluate_L_diagonal': diagonal, 'dppy.utils:stable_invert_root': invroot})
    externals = {'numpy.linalg.svd': svd, 'scipy.linalg.svd': svd}
    assumes = ('numpy.linalg.svd of a symmetric positive semi-definite matrix A is its eigendecomposition: A = U diag(S) U^T, U orthogonal, S >= 0', 'directions dropped by stable_filter (relative eigenvalue below n eps) are numerically null')
    def setup(self, ctx):
        n, d = z3.Ints('n d'); lam = z3.Real('lam')
        ctx.assume([n >= 1, d >= 1, lam > 0])
        X, x = data(ctx, 'x', n, d)
        D, m, xd, p = dictionary(ctx, 'D')
        L = Likelihood()
        ctx.ghost.update(n=n, x=x, lik=L, m=m, xd=xd, p=p, lam=lam)
        return [D, X, L, lam], {}
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)
    def on_return(self, ctx, v):
        g = ctx.ghost; n, m, x, xd, p, lam = [g[k] for k in ('n', 'm', 'x', 'xd', 'p', 'lam')]
        v = lib.to_arr(ctx, v)
        ctx.check('a vector of n values', v.ndim == 1 and v.axes[0].mask is None)
        ctx.check('a matrix is decomposed', g.get('svd') is not None)
        if v.ndim != 1 or g.get('svd') is None: raise PathEnd()
        N, A, U, S = g['svd']; keep = g['keep']; s = v.snap()
        ctx.check('length', to_int(v.axes[0].n) == n)
        ctx.check('order of the matrix decomposed', to_int(N) == m)
        ctx.check('the matrix decomposed is L_DD + lam diag(p)', All(lambda i, j: z3.Implies(rng_in((i, m), (j, m)), A(i, j) == LK(xd(i), xd(j)) + z3.If(i == j, lam * p(i), 0)), 2))
        r = g['r']
        i = fresh('i', I); ctx.assume(rng_in((i, n)))
        w = lambda a: mk_sum(m, lambda dd: U(dd, a) * LK(xd(dd), x(i)))
        # r(a)^2 S(a) = 1
        ctx.check('estimate', s(i) * lam == LK(x(i), x(i)) - mk_sum(m, lambda a: z3.If(keep(a), r(a) * r(a) * w(a) * w(a), z3.RealVal(0))))

class Reduce(FnContract):
    """reduce_lambda: the dictionary returned, and the law of its indices"""
    prop, target, title = 'C10', 'dppy.bless:reduce_lambda', 'thinning at a smaller regularisation'
    scenarios = ('default', 'oversampling given')
    must_reach = ('pre', 'return', 'raise:ValueError')
    reindex = True
    assumes = ('a uniform draw is almost surely neither 0 nor equal to a threshold',)
    def est(ctx, loc):
        """contract of estimate_rls_bless"""
        g = ctx.ghost; X = loc['X']
        ctx.check('the estimate uses the dictionary given', loc['D'] is g['D'])
        ctx.check('the estimate uses the new regularisation', to_real(loc['lam_new']) == g['lam'])
        ctx.check('the estimate uses the likelihood function', loc['eval_L'] is g['lik'] and isinstance(X, Points))
        if not isinstance(X, Points): raise PathEnd()
        if ctx.decide(2, 'negative estimate'): raise PyRaise('ValueError')
        f = X.row()
        ctx.assume(All(lambda i: z3.Implies(X.axis().dom(i), TAU(f(i)) >= 0)))
        return lib.new(ctx, [X.axis()], R, lambda i: TAU(f(i)))
    uses = dict(FnContract.uses, **{'dppy.utils:evaluate_L_diagonal': diagonal, 'dppy.bless:estimate_rls_bless': est})
    def setup(self, ctx):
        n, d = z3.Ints('n d'); lam, q, q0 = z3.Reals('lam q q0')
        ctx.assume([n >= 1, d >= 1, lam > 0, q > 0, q0 > 0])
        X, x = data(ctx, 'x', n, d)
        ctx.assume(All(lambda i: z3.Implies(rng_in((i, n)), LK(x(i), x(i)) >= 0)))
        D, m, xd, p = dictionary(ctx, 'D', q=q0)
        L = Likelihood()
        g = ctx.ghost
        g.update(n=n, x=x, lik=L, D=D, lam=lam, draws=[])
        if self.scenario == 'default': g['q'] = q0; return [X, L, D, lam, Rng()], {}
        g['q'] = q; return [X, L, D, lam, Rng()], dict(rls_oversample_parameter=q)
    def on_draw(self, ctx, d):
        if d.method != 'rand': raise Unsupported('draw %s' % d.method)
        ctx.ghost['draws'].append(d.f)
        ctx.assume(All(lambda i: z3.And(d.f(i) > 0, d.f(i) < 1)))
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)
    def witness(self, ctx, A): return None
    def on_return(self, ctx, v):
        g = ctx.ghost; n, x, lam, q, D = [g[k] for k in ('n', 'x', 'lam', 'q', 'D')]
        ok = isinstance(v, Obj) and all(k in v.attrs for k in ('idx', 'X', 'probs', 'lam', 'rls_oversample'))
        ctx.check('a dictionary is returned', ok)
        if not ok: raise PathEnd()
        ctx.check('increasing the regularisation is refused', lam <= to_real(D.attrs['lam']))
        ctx.check('regularisation of the new dictionary', to_real(v.attrs['lam']) == lam)
        ctx.check('oversampling of the new dictionary', to_real(v.attrs['rls_oversample']) == q)
        ix, X, P = v.attrs['idx'], v.attrs['X'], lib.to_arr(ctx, v.attrs['probs'])
        ix = lib.to_arr(ctx, ix)
        ok = ix.ndim == 1 and isinstance(X, Points) and P.ndim == 1 and all(a.mask is not None for a in (ix.axes[0], X.axis(), P.axes[0]))
        ctx.check('selections of the data', ok)
        if not ok: raise PathEnd()
        ctx.check('the dictionary is not empty', to_int(lib.axis_len(ctx, ix.axes[0])) >= 1)
        M = ix.axes[0].mask
        inn = lambda i: rng_in((i, n))
        for what, A in (('indices', ix.axes[0]), ('rows', X.axis()), ('probabilities', P.axes[0])):
            ctx.check('the %s are a selection of the data set' % what, to_int(A.n) == n)
            if A is not ix.axes[0]: ctx.check('the %s are those of the indices' % what, All(lambda i, A=A: z3.Implies(inn(i), A.mask(i) == M(i))))
        s, xs, ps = ix.snap(), X.row(), P.snap()
        ctx.check('the indices are the positions kept, in increasing order', All(lambda i: z3.Implies(z3.And(inn(i), M(i)), s(i) == i)))
        ctx.check('the rows are the data rows of the indices', All(lambda i: z3.Implies(z3.And(inn(i), M(i)), xs(i) == x(i))))
        li = lambda i: LK(x(i), x(i))
        t = lambda i: q * li(i) / (li(i) + lam)
        ucb = lambda i: z3.If(t(i) <= 1, t(i), z3.RealVal(1))
        prob = lambda i: z3.If(q * TAU(x(i)) <= ucb(i), q * TAU(x(i)), ucb(i))
        ctx.check('probabilities min(q tau, q L_ii / (L_ii + lam), 1)', All(lambda i: z3.Implies(z3.And(inn(i), M(i)), ps(i) == prob(i))))
        # law: two independent uniforms per point; ties with the thresholds have probability 0
        ds = g['draws']
        ctx.check('two vectors of uniform draws', len(ds) == 2)
        if len(ds) != 2: raise PathEnd()
        a, b = ds
        ctx.assume(All(lambda i: z3.Implies(inn(i), z3.And(a(i) != ucb(i), b(i) * ucb(i) != prob(i), 1 - a(i) != ucb(i), (1 - b(i)) * ucb(i) != prob(i), a(i) > 0, b(i) > 0, TAU(x(i)) >= 0))))
        i = fresh('i', I); ctx.assume(inn(i))
        ctx.check('a point is kept with probability min(q tau, q L_ii / (L_ii + lam), 1), independently of the others', M(i) == z3.And(a(i) < ucb(i), b(i) * ucb(i) < prob(i)))
        ctx.check('the two stages have probabilities whose product is the inclusion probability', z3.Implies(li(i) > 0, z3.And(ucb(i) > 0, ucb(i) <= 1, prob(i) >= 0, prob(i) <= ucb(i))))

class Shrink(LoopSpec):
    """choice of the first regularisation"""
    name = 'first'
    def match(self): pass
    def inv(self, ls):
        g = ls.ctx.ghost; n, x, q = g['n'], g['x'], g['q']
        l = to_real(ls.v('lam_init')); u = lib.elem_snap(ls.ctx, ls.v('ucb_init'))
        return [('positive regularisation', l > 0),
                ('first inclusion bounds', All(lambda i: z3.Implies(rng_in((i, n)), u(i) == q * LK(x(i), x(i)) / (LK(x(i), x(i)) + l))))]
class Descend(LoopSpec):
    name = 'descend'
    def seq(self, ls): return ls.v('lam_sequence')
    def inv(self, ls):
        g = ls.ctx.ghost; G = g['G']
        s = ls.v('lam_sequence'); D = ls.v('intermediate_dict_bless')
        k = to_int(s.length()); f = lib.elem_snap(ls.ctx, s)
        return [('regularisations left', z3.And(k >= 0, k < g['nb'])),
                ('they are the first of the sequence', All(lambda j: z3.Implies(rng_in((j, k)), f(j) == G(j)))),
                ('regularisation of the current dictionary', to_real(D.attrs['lam']) == G(k))]
    def fresh_value(self, ls, name, old):
        if isinstance(old, Obj) and 'probs' in old.attrs:
            return new_dict(ls.ctx, fresh('lam', R), ls.ctx.ghost['q'])
        return NotImplemented

def new_dict(ctx, lam, q):
    g = ctx.ghost; n, x = g['n'], g['x']
    keep = fresh_fn('kept', I, B); p = fresh_fn('prob', I, R); w = fresh('some', I)
    ctx.assume([rng_in((w, n)), keep(w)])
    A = Axis(n, lambda i: keep(i))
    ids = lib.new(ctx, [A], I, lambda i: x(i))
    idx = Arr([A], I, lambda i: i)
    o = Obj(g['cls'], dict(idx=idx, X=Points(ids, g['d']), probs=lib.new(ctx, [A], R, lambda i: p(i)), lam=lam, rls_oversample=q))
    o.ro = True
    g['some'] = w
    ctx.assume(to_int(lib.axis_len(ctx, A)) >= 1)
    return o

def reduced(ctx, loc):
    """contract of reduce_lambda"""
    g = ctx.ghost; D = loc['intermediate_dict_bless']; lam = to_real(loc['lam_new'])
    ctx.check('reduce_lambda works on the data set given', loc['X_data'] is g['X'] and loc['eval_L'] is g['lik'])
    ctx.check('reduce_lambda uses the generator', loc['rng'] is g['rng'])
    q = loc['rls_oversample_parameter']
    q = to_real(D.attrs['rls_oversample'] if q is None else q)
    ctx.check('oversampling', q == g['q'])
    well_formed(ctx, D)
    ctx.check('positive regularisation', lam > 0)
    if ctx.decide(2, 'refused'): raise PyRaise('ValueError')
    ctx.assume(lam <= to_real(D.attrs['lam']))
    return new_dict(ctx, lam, q)

def well_formed(ctx, D):
    g = ctx.ghost; n, x = g['n'], g['x']
    ix, X, P = lib.to_arr(ctx, D.attrs['idx']), D.attrs['X'], lib.to_arr(ctx, D.attrs['probs'])
    ok = isinstance(X, Points) and ix.axes[0].mask is not None and X.axis().mask is not None
    ctx.check('the dictionary is a selection of the data', ok)
    if not ok: raise PathEnd()
    M, s, xs = ix.axes[0].mask, ix.snap(), X.row()
    ctx.check('data set of the dictionary', z3.And(to_int(ix.axes[0].n) == n, to_int(X.axis().n) == n))
    ctx.check('rows and indices of the dictionary', All(lambda i: z3.Implies(rng_in((i, n)), z3.And(M(i) == X.axis().mask(i), z3.Implies(M(i), z3.And(s(i) == i, xs(i) == x(i)))))))
    if P.axes[0].mask is not None: ctx.check('probabilities and indices of the dictionary', All(lambda i: z3.Implies(rng_in((i, n)), M(i) == P.axes[0].mask(i))))

def geomspace(ctx, args, kw):
    """numpy.geomspace(start, stop, num), positive ends: num positive values from start to stop"""
    lo, hi, nb = to_real(lib.arg(args, kw, 0, 'start')), to_real(lib.arg(args, kw, 1, 'stop')), lib.arg(args, kw, 2, 'num', 50)
    nb = to_int(nb)
    ctx.check('positive ends of the sequence', z3.And(lo > 0, hi > 0), kind='definedness')
    ctx.check('number of values of the sequence', nb >= 0, kind='definedness')
    G = fresh_fn('lam_seq', I, R)
    ctx.assume(All(lambda j: z3.Implies(rng_in((j, nb)), G(j) > 0)))
    ctx.assume(z3.Implies(nb >= 1, G(z3.IntVal(0)) == lo))
    ctx.assume(z3.Implies(nb >= 2, G(nb - 1) == hi))
    ctx.ghost.update(G=G, nb=nb)
    return lib.new(ctx, [nb], R, lambda j: G(j))

class Run(FnContract):
    """bless: the sequence of dictionaries"""
    prop, target, title = 'C10', 'dppy.bless:bless', 'schedule'
    scenarios = ('iterations given', 'default iterations')
    loops = (Shrink(), Descend())
    roles = {'lam_init': lambda v: lib.is_scalar(v), 'ucb_init': lambda v: isinstance(v, Arr), 'lam_sequence': lambda v: isinstance(v, Lst), 'intermediate_dict_bless': lambda v: isinstance(v, Obj) and 'probs' in v.attrs}
    uses = dict(FnContract.uses, **{'dppy.utils:evaluate_L_diagonal': diagonal, 'dppy.bless:reduce_lambda': reduced, 'dppy.utils:get_progress_bar': bar})
    externals = {'numpy.geomspace': geomspace}
    must_reach = ('pre', 'return', 'descend:body', 'descend:exit')
    reindex = True
    assumes = ('numpy.geomspace returns its ends exactly',)
    def setup(self, ctx):
        n, d, nb = z3.Ints('n d nb'); lam, q = z3.Reals('lam_final q')
        ctx.assume([n >= 1, d >= 1, lam > 0, q > 0, nb >= 1])
        X, x = data(ctx, 'x', n, d)
        ctx.assume(All(lambda i: z3.Implies(rng_in((i, n)), LK(x(i), x(i)) > 0)))
        L = Likelihood(); g = ctx.ghost; r = Rng()
        mod = ctx.repo.module('dppy.bless')
        g.update(n=n, d=d, x=x, X=X, lik=L, lam=lam, q=q, rng=r, cls=NTClass(DICT, ['idx', 'X', 'probs', 'lam', 'rls_oversample']))
        return [X, L, lam, q], dict(random_state=r, nb_iter_bless=nb if self.scenario == 'iterations given' else None, verbose=z3.Bool('verbose'))
    def on_draw(self, ctx, d): pass
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)
    def witness(self, ctx, A): return ctx.ghost.get('some', z3.IntVal(0))
    def on_return(self, ctx, v):
        g = ctx.ghost
        ok = isinstance(v, Obj) and 'lam' in v.attrs
        ctx.check('a dictionary is returned', ok)
        if not ok: raise PathEnd()
        ctx.check('the final dictionary is at the requested regularisation', to_real(v.attrs['lam']) == g['lam'])
        ctx.check('oversampling of the final dictionary', to_real(v.attrs['rls_oversample']) == g['q'])
        well_formed(ctx, v)

class DescendSize(Descend):
    def inv(self, ls):
        g = ls.ctx.ghost; G = g['G']; k = to_int(ls.v('lam_sequence').length())
        new, mx, mn = to_real(ls.v('lam_new')), to_real(ls.v('lam_max')), to_real(ls.v('lam_min'))
        return Descend.inv(self, ls) + [('current regularisation', new == G(k)), ('lower bound', mn == 1), ('upper bound', mx >= new), ('estimate of the effective dimension is a number', True)]
    def on_break(self, ls):
        ls.ctx.ghost['broke'] = True

class RunSize(Run):
    """bless_size: bounds on the regularisation, and the dictionary at the lower one"""
    target, title = 'dppy.bless:bless_size', 'schedule for an expected size'
    scenarios = ('iterations given',)
    loops = (DescendSize(),)
    roles = dict(Run.roles, lam_new=lambda v: lib.is_scalar(v), lam_max=lambda v: lib.is_scalar(v), lam_min=lambda v: lib.is_scalar(v))
    def setup(self, ctx):
        a, kw = Run.setup(self, ctx)
        k = z3.Real('size_final'); ctx.assume([k > 1, kw['nb_iter_bless'] >= 2])
        a[2] = k; ctx.ghost['size'] = k
        n, x = ctx.ghost['n'], ctx.ghost['x']
        ctx.assume(mk_sum(n, lambda i: LK(x(i), x(i))) > 0)
        return a, kw
    def on_return(self, ctx, v):
        g = ctx.ghost
        ok = isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], Obj) and 'lam' in v[2].attrs
        ctx.check('bounds and a dictionary are returned', ok)
        if not ok: raise PathEnd()
        mx, mn, D = to_real(v[0]), to_real(v[1]), v[2]
        ctx.check('the dictionary is at the lower regularisation', to_real(D.attrs['lam']) == mn)
        ctx.check('bounds on the regularisation', mn <= mx)
        well_formed(ctx, D)

CONTRACTS = [RunSize, Diag10, StableFilter, InvertRoot, Estimate, Reduce, Run]
