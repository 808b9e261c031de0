from .proj import *

class GSLoop(ProjLoop):
    def inv(self, ls):
        g, t, ctx = ls.g, ls.it, ls.ctx
        S = g['S']
        av = lib.elem_snap(ctx, ls.v('avail'))
        return self.base_inv(ls) + self.avail_inv(ls) + [
            Def('c', lambda i, s: S.R(s, i, S.j(s)) / SQRT(S.R(s, S.j(s), S.j(s))), cond=lambda i, s: z3.And(to_bool(av(i)), s < t), what='Gram-Schmidt coefficients'),
            Def('norm_2', lambda i: S.R(t, i, i), cond=lambda i: to_bool(av(i)), what='residual variances')]

class KernelGS(ProjSampler):
    target, title = 'dppy.exact_sampling:proj_dpp_sampler_kernel_GS', 'kernel sampler, Gram-Schmidt'
    loops = (GSLoop(),)

class Inverse:
    """Q(t) = inverse of the minor K[j_0..j_{t-1}] by block inversion, u(t) = Q(t) K[j_., j_t]"""
    def __init__(self, ctx, S):
        self.S = S
        self.Q = Q = z3.Function('Qinv', I, I, I, R); SYMMETRIC['Qinv'] = (1, 2)
        self.u = u = z3.Function('uvec', I, I, R)
        rho = lambda t: S.R(t, S.j(t), S.j(t))
        ctx.assume(All(lambda t, a, b: z3.Implies(z3.And(t >= 0, a >= 0, b >= 0, a <= t, b <= t), Q(t + 1, a, b) == z3.If(z3.And(a < t, b < t), Q(t, a, b) + u(t, a) * u(t, b) / rho(t),
                       z3.If(z3.And(a == t, b == t), 1 / rho(t), z3.If(a == t, -u(t, b) / rho(t), -u(t, a) / rho(t))))), 3, name='block inversion', rw=True))
    def usum(self, t, a): return mk_sum(t, lambda b: self.Q(t, a, b) * self.S.K(self.S.j(b), self.S.j(t)))
    def form(self, t, i, l): return mk_sum(t, lambda a: mk_sum(t, lambda b: self.S.K(i, self.S.j(a)) * self.Q(t, a, b) * self.S.K(self.S.j(b), l)))
    def lin(self, t, i): return mk_sum(t, lambda a: self.S.K(i, self.S.j(a)) * self.u(t, a))

class InverseLemma(Contract):
    prop, target, title = 'C01', 'lemma:inverse', 'quadratic form of the inverse minor (induction on t)'
    scenarios = ('base', 'linear form', 'step')
    must_reach = ()
    def run(self, ctx):
        N, r, k, t, i, l = z3.Ints('N r k t i l')
        ctx.assume([N >= 1, k >= 0, k <= r, r <= N, t >= 0, t < k, rng_in((i, N), (l, N))])
        Kf = z3.Function('K', I, I, R); SYMMETRIC['K'] = (0, 1)
        S = Residual(ctx, N, r, k, Kf); V = Inverse(ctx, S)
        if self.scenario == 'base':
            ctx.check('base', mk_sum(z3.IntVal(0), lambda a: z3.RealVal(1)) == Kf(i, l) - S.R(0, i, l)); return
        ctx.assume(S.ok(t + 1))
        ih = All(lambda a, b: z3.Implies(rng_in((a, N), (b, N)), V.form(t, a, b) == Kf(a, b) - S.R(t, a, b)), 2, name='induction hypothesis')
        if self.scenario == 'linear form':
            ctx.assume(rng_in((S.j(t), N)))
            ctx.assume(V.form(t, i, S.j(t)) == Kf(i, S.j(t)) - S.R(t, i, S.j(t)))
            ctx.assume(All(lambda a: z3.Implies(z3.And(a >= 0, a < t), V.u(t, a) == V.usum(t, a)), rw=True))
            ctx.check('linear form', V.lin(t, i) == Kf(i, S.j(t)) - S.R(t, i, S.j(t))); return
        for x in (i, l): ctx.assume(V.lin(t, x) == Kf(x, S.j(t)) - S.R(t, x, S.j(t)))
        ctx.assume(V.form(t, i, l) == Kf(i, l) - S.R(t, i, l))
        ctx.check('step', V.form(t + 1, i, l) == Kf(i, l) - S.R(t + 1, i, l))

class SchurLoop(ProjLoop):
    def inv(self, ls):
        g, t, ctx = ls.g, ls.it, ls.ctx
        S = g['S']
        av = lib.elem_snap(ctx, ls.v('avail'))
        return self.base_inv(ls) + self.avail_inv(ls) + [
            Def('K_inv', lambda a, b: g['inv'].Q(t, a, b), cond=lambda a, b: z3.And(a < t, b < t), what='inverse of the minor'),
            Def('schur_comp', lambda i: S.R(t, i, i), cond=lambda i: to_bool(av(i)), what='residual variances')]

class KernelSchur(ProjSampler):
    target, title = 'dppy.exact_sampling:proj_dpp_sampler_kernel_Schur', 'kernel sampler, Schur complement'
    loops = (SchurLoop(),)
    roles = dict(ProjSampler.roles, K_inv=ProjSampler.roles['c'], schur_comp=ProjSampler.roles['norm_2'])
    telescoping = False
    def setup(self, ctx):
        a = super().setup(ctx)
        g = ctx.ghost
        g['inv'] = Inverse(ctx, g['S'])
        return a
    def on_draw(self, ctx, d):
        super().on_draw(ctx, d)
        g = ctx.ghost; S, V, t = g['S'], g['inv'], g['t']
        # instances of InverseLemma
        ctx.assume(All(lambda a: z3.Implies(z3.And(a >= 0, a < t), V.usum(t, a) == V.u(t, a)), name='u'))
        ctx.assume(V.form(t, d.value, d.value) == S.K(d.value, d.value) - S.R(t, d.value, d.value))
        ctx.assume(All(lambda i: z3.Implies(z3.And(rng_in((i, S.N)), S.ok(t + 1)), V.form(t + 1, i, i) == S.K(i, i) - S.R(t + 1, i, i)), name='inverse minor (InverseLemma)'))

class Dispatch(FnContract):
    """proj_dpp_sampler_kernel: refuses size > rank and unknown modes, otherwise returns the sample of a verified sampler called with the given kernel, size and generator"""
    prop, target, title = 'C01', 'dppy.exact_sampling:proj_dpp_sampler_kernel', 'kernel sampler, dispatch'
    scenarios = tuple('%s/%s' % (m, s) for m in ('GS', 'Chol', 'Schur', 'default', 'unknown') for s in ('size=None', 'size<=rank', 'size>rank'))
    must_reach = ('pre',)
    def setup(self, ctx):
        mode, sz = self.scenario.split('/')
        N, r, k = z3.Ints('N r k')
        ctx.assume([N >= 1, r >= 1, r <= N])
        K, Kf = matrix(ctx, 'K', N, N)
        ctx.assume(mk_sum(N, lambda s: Kf(s, s)) == z3.ToReal(r))
        if sz == 'size<=rank': ctx.assume([k >= 1, k <= r])
        if sz == 'size>rank': ctx.assume(k > r)
        size = None if sz == 'size=None' else k
        rng = Rng()
        ctx.ghost.update(K=K, size=size, rng=rng, out=None, refuse=sz == 'size>rank' or mode == 'unknown')
        kw = {} if mode == 'default' else dict(mode='xyz' if mode == 'unknown' else mode)
        return [K], dict(kw, size=size, random_state=rng)
    def sampler(pair):
        def f(ctx, loc):
            g = ctx.ghost
            if g['out'] is not None: raise Unsupported('several samplers are called')
            v = list(loc.values())
            ctx.check('the sampler gets the kernel', v[0] is g['K'])
            ctx.check('the sampler gets the size', (v[1] is None) == (g['size'] is None) and (v[1] is None or to_int(v[1]) == g['size']))
            ctx.check('the sampler draws from the given generator', v[2] is g['rng'])
            g['out'] = Opaque('sample')
            return (g['out'], Opaque('factor')) if pair else g['out']
        return f
    uses = dict(FnContract.uses, **{'dppy.exact_sampling:proj_dpp_sampler_kernel_GS': sampler(False), 'dppy.exact_sampling:proj_dpp_sampler_kernel_Chol': sampler(True),
                                    'dppy.exact_sampling:proj_dpp_sampler_kernel_Schur': sampler(False)})
    def on_return(self, ctx, v):
        ctx.check('invalid requests are refused', not ctx.ghost['refuse'])
        ctx.check('the sample of the sampler is returned', v is ctx.ghost['out'] and v is not None)
    def on_raise(self, ctx, e):
        ctx.check('only invalid requests are refused, with ValueError', ctx.ghost['refuse'] and e.kind == 'ValueError', kind='exception')

CONTRACTS = [Telescope, KernelGS, InverseLemma, Dispatch]
