"""residual kernel of a projection kernel along a selection sequence j_0, j_1, ..., and the lemmas used by C01/C02"""
from .base import *

class Residual:
    """R(0) = K, R(t+1) = R(t) - R(t) e_j e_j^T R(t) / R(t)_jj with j = j_t: the conditional kernel given j_0..j_{t-1}.
    r = rank of K, N = size of the ground set, k = requested size"""
    def __init__(self, ctx, N, r, k, K):
        self.N, self.r, self.k, self.K = N, r, k, K
        self.R = z3.Function('Rk', I, I, I, R); self.j = z3.Function('jj', I, I)
        SYMMETRIC['Rk'] = (1, 2)
        Rf, jf = self.R, self.j
        ctx.assume(All(lambda i, l: Rf(0, i, l) == K(i, l), 2, name='R(0) = K'))
        ctx.assume(All(lambda t, i, l: z3.Implies(t >= 0, Rf(t + 1, i, l) == Rf(t, i, l) - Rf(t, i, jf(t)) * Rf(t, l, jf(t)) / Rf(t, jf(t), jf(t))), 3, name='Schur step'))
        self.ok = ok = z3.Function('ok', I, B)      # the pivots of steps 0..t-1 are positive
        ctx.assume(ok(0))
        ctx.assume(All(lambda t: z3.Implies(t >= 0, ok(t + 1) == z3.And(ok(t), Rf(t, jf(t), jf(t)) > 0)), name='ok'))
        # lemma (Lean: lean/Residual.lean): the residual of a psd kernel is psd while the pivots are positive
        ctx.assume(All(lambda t, i: z3.Implies(z3.And(t >= 0, t <= k, ok(t), rng_in((i, N))), Rf(t, i, i) >= 0), 2, name='psd (lemma)'))
    def tele(self, ctx):
        """lemma proved by Telescope: sum_{s<t} R(s;i,j_s) R(s;k,j_s) / R(s;j_s,j_s) = K(i,k) - R(t;i,k)"""
        ctx.assume(All(lambda t, i, l: z3.Implies(z3.And(t >= 0, t <= self.k, self.ok(t)), self.partial(t, i, l) == self.K(i, l) - self.R(t, i, l)), 3, name='telescoping'))
    def partial(self, t, i, l):
        Rf, jf = self.R, self.j
        return mk_sum(t, lambda s: Rf(s, i, jf(s)) * Rf(s, l, jf(s)) / Rf(s, jf(s), jf(s)))
    def weight(self, t, i): return self.R(t, i, i) / z3.ToReal(self.r - t)

class Telescope(Contract):
    prop, target, title = 'C01', 'lemma:telescoping', 'telescoping identity of the residual kernel (induction on t)'
    must_reach = ()
    def run(self, ctx):
        N, r, k, t, i, l = z3.Ints('N r k t i l')
        ctx.assume([N >= 1, k >= 0, k <= r, r <= N, t >= 0, t < k, rng_in((i, N), (l, N))])
        Kf = z3.Function('K', I, I, R); SYMMETRIC['K'] = (0, 1)
        S = Residual(ctx, N, r, k, Kf)
        ctx.check('base', mk_sum(z3.IntVal(0), lambda s: z3.RealVal(1)) == Kf(i, l) - S.R(0, i, l))
        ctx.assume(S.ok(t + 1))
        ctx.assume(S.partial(t, i, l) == Kf(i, l) - S.R(t, i, l))
        ctx.check('step', S.partial(t + 1, i, l) == Kf(i, l) - S.R(t + 1, i, l))

class ProjLoop(LoopSpec):
    """shared part: the draw at iteration t has the conditional law R(t;i,i)/(r-t)"""
    name = 'selection'
    def base_inv(self, ls):
        g, t, ctx = ls.g, ls.it, ls.ctx
        S = g['S']
        f = lib.elem_snap(ctx, ls.v('sampl'))
        return [('drawn items are recorded', All(lambda a: z3.Implies(z3.And(a >= 0, a < t), z3.And(f(a) == S.j(a), S.j(a) >= 0, S.j(a) < S.N)), rw=True)),
                ('drawn items are distinct', All(lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < t), S.j(a) != S.j(b)), 2)),
                ('pivots are positive', S.ok(t)), ('each pivot is positive', All(lambda a: z3.Implies(z3.And(a >= 0, a < t), S.R(a, S.j(a), S.j(a)) > 0)))]
    def avail_inv(self, ls):
        g, t, ctx = ls.g, ls.it, ls.ctx
        S = g['S']
        av = lib.elem_snap(ctx, ls.v('avail'))
        return [('an item is available iff it was not drawn', All(lambda a: z3.Implies(z3.And(a >= 0, a < t), z3.Not(to_bool(av(S.j(a))))), rw=True)),
                ('the residual kernel vanishes on drawn items', All(lambda i, l: z3.Implies(z3.And(rng_in((i, S.N), (l, S.N)), z3.Not(to_bool(av(i)))), S.R(t, i, l) == 0), 2))]
    def begin(self, ls): ls.ctx.ghost['t'] = ls.it; ls.ctx.ghost['drawn'] = False
    def end(self, ls):
        if not ls.ctx.ghost['drawn']: raise Unsupported('no random choice in the iteration')
    on_break = end

class ProjSampler(FnContract):
    scenarios = ('size=None', 'size given')
    prop, telescoping = 'C01', True
    roles = {'sampl': lambda v: isinstance(v, (Arr, Lst)) and lib.nd(v) == 1, 'avail': lambda v: isinstance(v, Arr) and v.sort.eq(B),
             'c': lambda v: isinstance(v, Arr) and v.ndim == 2 and not v.ro, 'norm_2': lambda v: isinstance(v, Arr) and v.ndim == 1 and v.sort.eq(R)}
    must_reach = ('pre', 'return', 'selection:body')
    assumes = ('RandomState.choice(a, p=w) draws a[i] with probability w[i] (numpy)',
               'lemma (checked in Lean): residuals of a projection kernel are projections of trace r-t with nonnegative diagonal; prod_t R(t;j_t,j_t) = det K_S')
    def dims(self, ctx):
        N, r = z3.Ints('N r'); ctx.assume([N >= 1, r >= 1, r <= N])
        if self.scenario == 'size=None': return N, r, r, None
        k = z3.Int('k'); ctx.assume([k >= 1, k <= r])
        return N, r, k, k
    def setup(self, ctx):
        N, r, k, size = self.dims(ctx)
        Kf = z3.Function('K', I, I, R); SYMMETRIC['K'] = (0, 1)
        K, _ = matrix(ctx, 'K', N, N, Kf)
        ctx.assume(mk_sum(N, lambda s: Kf(s, s)) == z3.ToReal(r))
        S = Residual(ctx, N, r, k, Kf)
        if self.telescoping: S.tele(ctx)
        ctx.ghost.update(S=S, Kf=Kf, drawn=False)
        return [K, size, Rng()], {}
    def element(self, ctx, d, q):
        """ground-set item at value q of the draw"""
        return d.values(q)
    def on_draw(self, ctx, d):
        g = ctx.ghost
        if d.method != 'choice': raise Unsupported('draw %s' % d.method)
        if g['drawn'] or 't' not in g: raise Unsupported('several draws in an iteration')
        g['drawn'] = True
        S, t = g['S'], g['t']
        self.check_law(ctx, d, S, t)
        ctx.assume(S.j(t) == d.value)
    def check_law(self, ctx, d, S, t):
        ctx.check('choice among items of the ground set', All(lambda q: z3.Implies(d.axis.dom(q), d.values(q) == q)))
        ctx.check('the ground set has N items', to_int(d.axis.n) == S.N)
        m = d.axis.mask or (lambda q: z3.BoolVal(True))
        ctx.check('item q is drawn with its conditional probability R(t;q,q)/(r-t)', All(lambda q: z3.Implies(rng_in((q, S.N)), z3.If(m(q), d.p(q), 0) == S.weight(t, q))))
    def on_return(self, ctx, v):
        S = ctx.ghost['S']
        f = lib.elem_snap(ctx, v)
        ctx.check('the sample has the requested size', to_int(lib.lens(v)[0]) == S.k)
        ctx.check('the sample lists the drawn items', All(lambda a: z3.Implies(rng_in((a, S.k)), f(a) == S.j(a))))
        ctx.check('items are in range and distinct', All(lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < S.k), z3.And(f(a) >= 0, f(a) < S.N, f(a) != f(b))), 2))
