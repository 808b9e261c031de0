from .base import *

class Elim(LoopSpec):
    name = 'elimination'
    def inv(self, ls):
        g, t, ctx = ls.g, ls.it, ls.ctx
        N, Bf, inS, piv, pos = g['N'], g['B'], g['inS'], g['piv'], g['pos']
        S = ls.v('sample'); f = lib.elem_snap(ctx, S); m = to_int(S.length())
        value = lambda i, k: z3.If(z3.And(i >= t, k >= t), Bf(t, i, k),
                              z3.If(k >= i, z3.If(i == k, piv(i), Bf(i, i, k)), Bf(k, i, k) / piv(k)))
        return [Def('A', value, what='Schur complement, LU factors'),
                ('0 <= len(sample) <= j', z3.And(m >= 0, m <= t)),
                ('sampled indices were visited and selected', All(lambda a: z3.Implies(z3.And(a >= 0, a < m), z3.And(f(a) >= 0, f(a) < t, inS(f(a)))))),
                ('sample is increasing', All(lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < m), f(a) < f(b)), 2)),
                ('every selected index is in the sample', All(lambda s: z3.Implies(z3.And(s >= 0, s < t, inS(s)), z3.And(pos(s) >= 0, pos(s) < m, f(pos(s)) == s))))]
    def begin(self, ls):
        ls.ctx.reset_weight()
        ls.m0 = to_int(ls.v('sample').length())
    def end(self, ls):
        ctx, g, t = ls.ctx, ls.g, ls.it - 1
        t = simp(t)
        m1 = to_int(ls.v('sample').length())
        app = ctx.entailed(m1 == ls.m0 + 1) is True
        if not app: ctx.check('at most one index is appended', m1 == ls.m0)
        ctx.assume(g['inS'](t) if app else z3.Not(g['inS'](t)))
        ctx.assume(g['pos'](t) == ls.m0)
        p = g['B'](t, t, t)
        ctx.check('item %s with its conditional probability' % ('included' if app else 'excluded'), ctx.total_weight() == (p if app else 1 - p))

class Generic(FnContract):
    prop, target = 'C03', 'dppy.exact_sampling:dpp_sampler_generic_kernel'
    title = 'generic LU sampler'
    loops = (Elim(),)
    roles = {'sample': lambda v: isinstance(v, Lst), 'A': lambda v: isinstance(v, Arr) and v.ndim == 2}
    must_reach = ('pre', 'return', 'elimination:body', 'elimination:exit')
    def setup(self, ctx):
        N = z3.Int('N'); ctx.assume(N >= 0)
        K, Kf = matrix(ctx, 'K', N, N)
        Bf = z3.Function('B', I, I, I, R); piv = z3.Function('piv', I, R); inS = z3.Function('inS', I, B); pos = z3.Function('pos', I, I)
        ctx.ghost.update(N=N, B=Bf, piv=piv, inS=inS, pos=pos)
        ctx.assume(All(lambda i, k: Bf(0, i, k) == Kf(i, k), 2, name='B(0) = K'))
        ctx.assume(All(lambda t: z3.Implies(rng_in((t, N)), piv(t) == z3.If(inS(t), Bf(t, t, t), Bf(t, t, t) - 1)), name='pivot'))
        ctx.assume(All(lambda t: z3.Implies(rng_in((t, N)), z3.And(Bf(t, t, t) >= 0, Bf(t, t, t) <= 1)), name='K is a correlation kernel'))
        ctx.assume(All(lambda t, i, k: z3.Implies(rng_in((t, N)), Bf(t + 1, i, k) == Bf(t, i, k) - Bf(t, i, t) * Bf(t, t, k) / piv(t)), 3, name='Schur step'))
        return [K, Rng()], {}
    def on_return(self, ctx, v):
        g = ctx.ghost; N, inS, pos, Bf, piv = g['N'], g['inS'], g['pos'], g['B'], g['piv']
        if not isinstance(v, tuple) or len(v) != 2: raise Unsupported('pair expected')
        S, A = v
        f, m = lib.elem_snap(ctx, S), to_int(S.length())
        ctx.check('sample is increasing, in range, of selected items', All(lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < m), f(a) < f(b)), 2))
        ctx.check('sample has selected items', All(lambda a: z3.Implies(z3.And(a >= 0, a < m), z3.And(f(a) >= 0, f(a) < N, inS(f(a))))))
        ctx.check('sample has all selected items', All(lambda s: z3.Implies(z3.And(s >= 0, s < N, inS(s)), z3.And(pos(s) >= 0, pos(s) < m, f(pos(s)) == s))))
        a = A.snap()
        ctx.check('LU factors are returned', All(lambda i, k: z3.Implies(rng_in((i, N), (k, N)), a(i, k) == z3.If(i == k, piv(i), z3.If(i < k, Bf(i, i, k), Bf(k, i, k) / piv(k)))), 2))

CONTRACTS = [Generic]
