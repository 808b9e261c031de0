"""C19: validators and the constructor of finite DPPs"""
from .base import *

def absv(x): return z3.If(x >= 0, x, -x)
LOOSE, TIGHT = z3.RealVal('1/10000'), z3.RealVal('1/1000000000')
def loose(x, y): return absv(x - y) <= LOOSE * (1 + absv(y))
def tight(x, y): return absv(x - y) <= TIGHT

class Validator(FnContract):
    """accepted => the condition holds up to a loose tolerance; the condition holds up to a tight one => accepted"""
    prop = 'C19'
    scenarios = ('2D', 'None')
    def must_reach(self, sc): return ('pre', 'return') if sc in ('None',) else ('pre', 'return', 'raise:ValueError')
    def setup(self, ctx):
        sc, g = self.scenario, ctx.ghost
        if sc == 'None': g['a'] = None; return [None], {}
        d = [z3.Int('d%d' % i) for i in range(int(sc[0]))]
        ctx.assume([x >= 1 for x in d])
        f = fresh_fn('array', *([I] * len(d) + [R]))
        a = lib.new(ctx, d, R, lambda *i: f(*i)); a.ro, a.name = True, 'array'
        g.update(a=a, d=d, f=f)
        return [a], {}
    def cond(self, ctx, d, f, eq): raise NotImplementedError
    def on_return(self, ctx, v):
        g = ctx.ghost
        ctx.check('the argument itself is returned', v is g['a'])
        if self.scenario == 'None': return
        c = self.cond(ctx, g['d'], g['f'], loose)
        ctx.check('an accepted array satisfies the condition', c if c is not None else False)
    def on_raise(self, ctx, e):
        g = ctx.ghost
        if e.kind != 'ValueError' or self.scenario == 'None': return FnContract.on_raise(self, ctx, e)
        c = self.cond(ctx, g['d'], g['f'], tight)
        if c is None: ctx.check('an array of the wrong shape is refused', True); return
        # refused: the condition does not hold
        ctx.assume(c)
        ctx.check('a refused array does not satisfy the condition', False)

def tmin(a, b): return z3.If(to_int(a) <= b, to_int(a), z3.IntVal(b))

class Square(Validator):
    target, title, scenarios = 'dppy.utils:is_square', 'is_square', ('1D', '2D', '3D', 'None')
    def must_reach(self, sc): return ('pre', 'return') if sc == 'None' else ('pre', 'raise:ValueError') + (('return',) if sc == '2D' else ())
    def cond(self, ctx, d, f, eq): return d[0] == d[1] if len(d) == 2 else None

def square(ctx, loc):
    """contract of is_square, proved above"""
    a = loc['array']
    if a is None: return None
    if not isinstance(a, Arr): raise Unsupported('is_square')
    if a.ndim != 2: raise PyRaise('ValueError')
    if ctx.truth(simp(to_int(a.axes[0].n) == to_int(a.axes[1].n))): return a
    raise PyRaise('ValueError')
SQ = dict(FnContract.uses, **{'dppy.utils:is_square': square})

class Symmetric(Validator):
    target, title, uses = 'dppy.utils:is_symmetric', 'is_symmetric', SQ
    def cond(self, ctx, d, f, eq):
        m = tmin(d[0], 20)
        if ctx.entailed(d[0] == d[1]) is not True: return None
        return All(lambda i, j: z3.Implies(rng_in((i, m), (j, m)), eq(f(i, j), f(j, i))), 2)

def colsq(f, n, j, k=None): return mk_sum(n, lambda i: f(i, j) * f(i, j if k is None else k))
class Projection(Validator):
    target, title, uses = 'dppy.utils:is_projection', 'is_projection', SQ
    def cond(self, ctx, d, f, eq):
        m = tmin(d[0], 20)
        if ctx.entailed(d[0] == d[1]) is not True: return None
        return All(lambda j: z3.Implies(rng_in((j, m)), eq(colsq(f, d[0], j), f(j, j))))

class Orthonormal(Validator):
    target, title = 'dppy.utils:is_orthonormal_columns', 'is_orthonormal_columns'
    def cond(self, ctx, d, f, eq):
        m = tmin(d[1], 5)
        return All(lambda a, b: z3.Implies(rng_in((a, m), (b, m)), eq(colsq(f, d[0], a, b), z3.If(a == b, z3.RealVal(1), z3.RealVal(0)))), 2)

class Entries(Validator):
    scenarios = ('1D', '2D', 'None')
    def cond(self, ctx, d, f, eq):
        return All(lambda *i: z3.Implies(rng_in(*zip(i, d)), self.entry(f(*i), eq)), len(d))
class Zero1(Entries):
    target, title = 'dppy.utils:is_equal_to_O_or_1', 'is_equal_to_O_or_1'
    def entry(self, x, eq): return z3.Or(eq(x, z3.RealVal(0)), eq(x, z3.RealVal(1)))
def tol(eq): return LOOSE if eq is loose else TIGHT
class In01(Entries):
    target, title = 'dppy.utils:is_in_01', 'is_in_01'
    def entry(self, x, eq): return z3.And(x >= -tol(eq), x <= 1 + tol(eq))
class Geq0(Entries):
    target, title = 'dppy.utils:is_geq_0', 'is_geq_0'
    def entry(self, x, eq): return x >= -tol(eq)

class FullRowRank(Validator):
    target, title = 'dppy.utils:is_full_row_rank', 'is_full_row_rank'
    def rank(ctx, args, kw):
        a, g = args[0], ctx.ghost
        ctx.check('rank of the argument', a is g['a'] or isinstance(a, Arr) and a.base is g['a'] and a.ndim == 2)
        return g['rank']
    externals = {'numpy.linalg.matrix_rank': rank}
    def setup(self, ctx):
        r = Validator.setup(self, ctx)
        if self.scenario != 'None':
            k = z3.Int('rank'); d = ctx.ghost['d']
            ctx.assume([k >= 0, k <= d[0], k <= d[1]])
            ctx.ghost['rank'] = k
        return r
    def cond(self, ctx, d, f, eq): return ctx.ghost['rank'] == d[0]


# ---------------------------------------------------------------- constructor of finite DPPs
def validator(name):
    """contract of a validator (proved above): the argument is returned, or ValueError raised"""
    def use(ctx, loc):
        a = loc['array']
        if a is None: return None
        g = ctx.ghost
        ok = fresh('accepted', B)
        if ctx.truth(ok):
            g['accepted'].append((name, a)); return a
        g['refused'] = (name, a)
        raise PyRaise('ValueError')
    return use
NAMES = ('is_symmetric', 'is_projection', 'is_orthonormal_columns', 'is_equal_to_O_or_1', 'is_in_01', 'is_geq_0', 'is_full_row_rank')
KPAR, LPAR = ('K', 'K_eig_dec', 'A_zono'), ('L', 'L_eig_dec', 'L_gram_factor', 'L_eval_X_data')
SETS = [()] + [(k,) for k in KPAR + LPAR] + [('K', 'K_eig_dec'), ('K', 'A_zono'), ('L', 'L_eig_dec'), ('L', 'L_gram_factor'), ('L', 'L_eval_X_data'), ('K', 'L')]
class Constructor(FnContract):
    prop, target, title = 'C19', 'dppy.finite_dpps:FiniteDPP.__init__', 'constructor of finite DPPs'
    uses = dict(FnContract.uses, **{'dppy.utils:' + n: validator(n) for n in NAMES})
    scenarios = tuple((t, p, s, '') for t in ('correlation', 'likelihood') for p in (True, False) for s in SETS) \
        + tuple((t, p, s, '') for t, p, s in (('kernel', False, ('K',)), ('', True, ('L',)), (None, False, ('K',)), ('correlation', 'yes', ('K',)), ('correlation', 1, ('K',)), ('likelihood', 0, ('L',)), ('likelihood', None, ('L',)))) \
        + tuple(('likelihood', p, ('L_eval_X_data',), x) for p in (True, False) for x in ('not callable', '1D', 'empty'))
    must_reach = ('pre',)
    def setup(self, ctx):
        kt, pr, keys, bad = self.scenario
        g = ctx.ghost
        n, d, r = z3.Int('N'), z3.Int('d'), z3.Int('r')
        ctx.assume([n >= 1, d >= 1, r >= 1])
        m = lambda nm, *sh: (matrix if len(sh) == 2 else vector)(ctx, nm, *sh)[0]
        P = {}
        if 'K' in keys: P['K'] = m('K', n, n)
        if 'L' in keys: P['L'] = m('L', n, n)
        if 'K_eig_dec' in keys: P['K_eig_dec'] = (m('K_eig_vals', r), m('K_eig_vecs', n, r))
        if 'L_eig_dec' in keys: P['L_eig_dec'] = (m('L_eig_vals', r), m('L_eig_vecs', n, r))
        if 'A_zono' in keys: P['A_zono'] = m('A', d, n)
        if 'L_gram_factor' in keys: P['L_gram_factor'] = m('Phi', d, n)
        if 'L_eval_X_data' in keys:
            X = m('X', n) if bad == '1D' else m('X', 0 if bad == 'empty' else n, d)
            P['L_eval_X_data'] = (z3.RealVal(3) if bad == 'not callable' else PyFn(lambda ctx, a, k: Opaque('eval_L'), 'eval_L'), X)
        mod = ctx.repo.module('dppy.finite_dpps')
        o = Obj(ClassVal(mod, mod.defs['FiniteDPP'], 'dppy.finite_dpps:FiniteDPP'))
        g.update(P=P, self=o, accepted=[], refused=None, dims=(n, d))
        return [o, kt, pr], dict(P)
    def required(self):
        """the validators that apply to the given parameters: (validator, argument)"""
        kt, pr, keys, bad = self.scenario; P = self.P
        pr = True if kt == 'correlation' and 'A_zono' in keys else pr
        R = []
        for k in ('K', 'L'):
            if k in P:
                R.append(('is_symmetric', P[k]))
                if pr: R.append(('is_projection', P[k]))
        for k, v in (('K_eig_dec', 'is_in_01'), ('L_eig_dec', 'is_geq_0')):
            if k in P: R += [('is_equal_to_O_or_1' if pr else v, P[k][0]), ('is_orthonormal_columns', P[k][1])]
        if 'A_zono' in P: R.append(('is_full_row_rank', P['A_zono']))
        return R
    def valid_call(self):
        kt, pr, keys, bad = self.scenario
        return kt in ('correlation', 'likelihood') and isinstance(pr, bool) and bool(set(keys) & set(KPAR if kt == 'correlation' else LPAR)) and not bad
    def same(self, a, b): return a[0] == b[0] and a[1] is b[1]
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)
        g = ctx.ghost; self.P = g['P']
        if not self.valid_call() and g['refused'] is None: ctx.check('an invalid parametrisation is refused', True); return
        ctx.check('a valid parametrisation is refused only by a validator of one of its conditions', g['refused'] is not None and any(self.same(g['refused'], q) for q in self.required()))
    def on_return(self, ctx, v):
        g = ctx.ghost; self.P = P = g['P']; o = g['self']; kt, pr, keys, bad = self.scenario; a = o.attrs
        ctx.check('an invalid parametrisation is not accepted', self.valid_call())
        if not self.valid_call(): raise PathEnd()
        for q in self.required(): ctx.check('%s has accepted the parameter' % q[0], any(self.same(q, x) for x in g['accepted']))
        ctx.check('kernel type', a.get('kernel_type') == kt)
        ctx.check('projection flag', a.get('projection') is (True if kt == 'correlation' and 'A_zono' in keys else pr))
        def is_(k, w): ctx.check('attribute %s' % k, a.get(k, 0) is w)
        is_('K', P.get('K')); is_('A_zono', P.get('A_zono'))
        ke, le = P.get('K_eig_dec', (None, None)), P.get('L_eig_dec', (None, None))
        is_('K_eig_vals', ke[0]); is_('L_eig_vals', le[0]); is_('eig_vecs', ke[1] if ke[1] is not None else le[1])
        ev = P.get('L_eval_X_data', (None, None))
        is_('eval_L', ev[0]); is_('X_data', ev[1]); is_('L_gram_factor', P.get('L_gram_factor')); is_('E_poly', None); is_('intermediate_sample_info', None)
        s = a.get('list_of_samples')
        ctx.check('no sample yet', isinstance(s, Lst) and s.concrete and not s.items)
        n, d = g['dims']
        if 'L_gram_factor' not in P: is_('L', P.get('L')); is_('L_dual', None); return
        f = P['L_gram_factor'].snap()
        def is_sum(k, M, w, size):
            if not isinstance(M, Arr) or M.ndim != 2: ctx.check('attribute %s' % k, False); return
            h = M.snap()
            ctx.check('shape of %s' % k, z3.And(to_int(M.axes[0].n) == size, to_int(M.axes[1].n) == size))
            ctx.check('entries of %s' % k, All(lambda i, j: z3.Implies(rng_in((i, size), (j, size)), to_real(h(i, j)) == w(i, j)), 2))
        if a.get('L_dual') is not None: is_sum('L_dual', a['L_dual'], lambda i, j: mk_sum(n, lambda t: f(i, t) * f(j, t)), d)
        if 'L' in P: is_('L', P['L'])
        elif a.get('L') is not None: is_sum('L', a['L'], lambda i, j: mk_sum(d, lambda t: f(t, i) * f(t, j)), n)

CONTRACTS = [Square, Symmetric, Projection, Orthonormal, Zero1, In01, Geq0, FullRowRank, Constructor]
