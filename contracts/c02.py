from .proj import *
from .c01 import GSLoop

class EigSampler(ProjSampler):
    """the kernel is K = V V^T, r = number of (orthonormal) columns of V"""
    prop, telescoping = 'C02', True
    def setup(self, ctx):
        N, r, k, size = self.dims(ctx)
        V, Vf = matrix(ctx, 'V', N, r)
        Kf = lambda i, l: mk_sum(r, lambda m: Vf(i, m) * Vf(l, m))
        S = Residual(ctx, N, r, k, Kf)
        if self.telescoping: S.tele(ctx)
        ctx.ghost.update(S=S, Kf=Kf, Vf=Vf, drawn=False)
        return [V, size, Rng()], {}

class EigGS(EigSampler):
    target, title = 'dppy.exact_sampling:proj_dpp_sampler_eig_GS', 'eigenvector sampler, Gram-Schmidt'
    loops = (GSLoop(),)

class Rows:
    """X(0; i) = i-th row of V, X(t+1; i) = X(t; i) - R(t; i, j_t) / R(t; j_t, j_t) X(t; j_t): the rows orthogonalised against the drawn ones"""
    def __init__(self, ctx, S, Vf):
        self.S, self.Vf = S, Vf
        self.X = X = z3.Function('Xrow', I, I, I, R)
        ctx.assume(All(lambda i, m: X(0, i, m) == Vf(i, m), 2, name='X(0) = V'))
        ctx.assume(All(lambda t, i, m: z3.Implies(t >= 0, X(t + 1, i, m) == X(t, i, m) - S.R(t, i, S.j(t)) * X(t, S.j(t), m) / S.R(t, S.j(t), S.j(t))), 3, name='row step', rw=True))
    def partial(self, t, i, m):
        S, X = self.S, self.X
        return mk_sum(t, lambda u: S.R(u, i, S.j(u)) * X(u, S.j(u), m) / S.R(u, S.j(u), S.j(u)))
    def gram(self, t, l, i): return mk_sum(self.S.r, lambda m: self.Vf(l, m) * self.X(t, i, m))
    def expanded(self, t, l, i): return mk_sum(self.S.r, lambda m: self.Vf(l, m) * (self.Vf(i, m) - self.partial(t, i, m)))
    def lemmas(self, ctx, t, jt):
        """instances of RowLemma for the item drawn at step t"""
        S = self.S
        ctx.assume(All(lambda m: self.partial(t, jt, m) == self.Vf(jt, m) - self.X(t, jt, m), name='rows (RowLemma)'))
        ctx.assume(All(lambda l: self.expanded(t, l, jt) == S.R(t, l, jt), name='gram (RowLemma)'))

class RowLemma(Contract):
    prop, target, title = 'C02', 'lemma:rows', 'orthogonalised rows: sum form and scalar products (induction on t)'
    must_reach = ()
    def run(self, ctx):
        N, r, k, t, i, l, m = z3.Ints('N r k t i l m')
        ctx.assume([N >= 1, k >= 0, k <= r, r <= N, t >= 0, t < k, rng_in((i, N), (l, N), (m, r))])
        Vf = z3.Function('V', I, I, R)
        Kf = lambda i, l: mk_sum(r, lambda m: Vf(i, m) * Vf(l, m))
        S = Residual(ctx, N, r, k, Kf)
        rows = Rows(ctx, S, Vf)
        ctx.check('sum form, base', mk_sum(z3.IntVal(0), lambda s: z3.RealVal(1)) == Vf(i, m) - rows.X(0, i, m))
        ctx.check('scalar products, base', rows.gram(z3.IntVal(0), l, i) == S.R(0, i, l))
        ctx.assume(S.ok(t + 1))
        ctx.assume(rows.partial(t, i, m) == Vf(i, m) - rows.X(t, i, m))
        ctx.check('sum form, step', rows.partial(t + 1, i, m) == Vf(i, m) - rows.X(t + 1, i, m))
        ctx.assume(All(lambda a, b: rows.gram(t, a, b) == S.R(t, b, a), 2))
        ctx.check('scalar products, step', rows.gram(t + 1, l, i) == S.R(t + 1, i, l))
        j = S.j(t)
        ctx.assume(All(lambda m: rows.X(t, j, m) == Vf(j, m) - rows.partial(t, j, m), rw=True))
        ctx.check('scalar products, expanded', rows.expanded(t, l, j) == S.R(t, l, j))

class GSbisLoop(ProjLoop):
    def inv(self, ls):
        g, t, ctx = ls.g, ls.it, ls.ctx
        S, rows, pos = g['S'], g['rows'], g['pos']
        av = lib.elem_snap(ctx, ls.v('avail'))
        return self.base_inv(ls) + self.avail_inv(ls) + [
            ('positions of the drawn items', All(lambda a: z3.Implies(z3.And(a >= 0, a < t), pos(S.j(a)) == a), rw=True)),
            Def('V', lambda i, m: z3.If(to_bool(av(i)), g['Vf'](i, m), rows.X(pos(i), i, m) / S.R(pos(i), i, i)), what='rows'),
            Def('c', lambda i, s: S.R(s, i, S.j(s)), cond=lambda i, s: z3.And(to_bool(av(i)), s < t), what='contributions'),
            Def('norm_2', lambda i: S.R(t, i, i), cond=lambda i: to_bool(av(i)), what='residual variances')]

class EigGSbis(EigSampler):
    telescoping = False
    target, title = 'dppy.exact_sampling:proj_dpp_sampler_eig_GS_bis', 'eigenvector sampler, modified Gram-Schmidt'
    loops = (GSbisLoop(),)
    roles = dict(EigSampler.roles, V=lambda v: isinstance(v, Arr) and v.ndim == 2 and not v.ro, c=lambda v: isinstance(v, Arr) and v.ndim == 2 and not v.ro)
    def setup(self, ctx):
        a = super().setup(ctx)
        g = ctx.ghost
        g['rows'] = Rows(ctx, g['S'], g['Vf'])
        g['pos'] = z3.Function('pos', I, I)
        return a
    def on_draw(self, ctx, d):
        super().on_draw(ctx, d)
        S, t = ctx.ghost['S'], ctx.ghost['t']
        ctx.assume(ctx.ghost['pos'](S.j(t)) == t)
        ctx.ghost["rows"].lemmas(ctx, t, d.value)

class EigDispatch(FnContract):
    """proj_dpp_sampler_eig: unknown modes are refused, an empty selection of eigenvectors gives the empty sample, otherwise the sample of a verified sampler is returned"""
    prop, target, title = 'C02', 'dppy.exact_sampling:proj_dpp_sampler_eig', 'eigenvector sampler, dispatch'
    scenarios = tuple('%s/%s' % (m, s) for m in ('GS', 'GS_bis', 'KuTa12', 'default', 'unknown', 'no eigenvector') for s in ('size=None', 'size given'))
    must_reach = ('pre',)
    def setup(self, ctx):
        mode, sz = self.scenario.split('/')
        N, r, k = z3.Ints('N r k')
        ctx.assume([N >= 1, r <= N, r == 0 if mode == 'no eigenvector' else r >= 1, k >= 1, k <= r if mode != 'no eigenvector' else k <= N])
        V, Vf = matrix(ctx, 'V', N, r)
        size = None if sz == 'size=None' else k
        rng = Rng()
        ctx.ghost.update(V=V, size=size, rng=rng, out=None, refuse=mode == 'unknown', empty=mode == 'no eigenvector')
        kw = {} if mode in ('default', 'no eigenvector') else dict(mode='xyz' if mode == 'unknown' else mode)
        return [V], dict(kw, size=size, random_state=rng)
    def sampler(ctx, loc):
        g = ctx.ghost
        if g['out'] is not None: raise Unsupported('several samplers are called')
        v = list(loc.values())
        ctx.check('the sampler gets the eigenvectors', v[0] is g['V'])
        ctx.check('the sampler gets the size', (v[1] is None) == (g['size'] is None) and (v[1] is None or to_int(v[1]) == g['size']))
        ctx.check('the sampler draws from the given generator', v[2] is g['rng'])
        g['out'] = Opaque('sample')
        return g['out']
    uses = dict(FnContract.uses, **dict.fromkeys(['dppy.exact_sampling:proj_dpp_sampler_eig_GS', 'dppy.exact_sampling:proj_dpp_sampler_eig_GS_bis', 'dppy.exact_sampling:proj_dpp_sampler_eig_KuTa12'], sampler))
    def on_return(self, ctx, v):
        g = ctx.ghost
        ctx.check('invalid requests are refused', not g['refuse'])
        if g['empty']: ctx.check('the empty selection gives the empty sample', isinstance(v, Lst) and v.concrete and not v.items)
        else: ctx.check('the sample of the sampler is returned', v is g['out'] and v is not None)
    def on_raise(self, ctx, e):
        ctx.check('only invalid requests are refused, with ValueError', ctx.ghost['refuse'] and e.kind == 'ValueError', kind='exception')

class KuLoop(ProjLoop):
    def fresh_value(self, ls, name, old):
        if name != ls.ctx.run.rolemap.get('V', 'V'): return NotImplemented
        S = ls.g['S']
        f = fresh_fn('Vt', I, I, R)
        return lib.new(ls.ctx, [S.N, simp(S.r - ls.it)], R, lambda i, m: f(i, m))
    def inv(self, ls):
        g, t, ctx = ls.g, ls.it, ls.ctx
        S, V = g['S'], ls.v('V')
        V = lib.to_arr(ctx, V)
        f = V.snap(); n, w = V.axes[0].n, V.axes[1].n
        return self.base_inv(ls) + [
            ('the residual kernel vanishes on drawn items', All(lambda a, l: z3.Implies(z3.And(a >= 0, a < t, rng_in((l, S.N))), S.R(t, S.j(a), l) == 0), 2)),
            ('V has N rows and r - t columns', z3.And(to_int(n) == S.N, to_int(w) == S.r - t)),
            ('V has orthonormal columns', orthonormal(S.N, S.r - t, f)),
            ('V V^T is the residual kernel', All(lambda i, l: z3.Implies(rng_in((i, S.N), (l, S.N)), mk_sum(S.r - t, lambda m: f(i, m) * f(l, m)) == S.R(t, i, l)), 2)),
            Def('norm_2', lambda i: S.R(t, i, i), what='residual variances')]
    def begin(self, ls):
        super().begin(ls)
        V = lib.to_arr(ls.ctx, ls.v('V'))
        ls.ctx.ghost['Vt'] = V.snap()

def orthonormal(N, w, f):
    return All(lambda m, q: z3.Implies(z3.And(m >= 0, m < w, q >= 0, q < w), mk_sum(N, lambda i: f(i, m) * f(i, q)) == z3.If(m == q, z3.RealVal(1), z3.RealVal(0))), 2)

def qr_contract(ctx, args, kw):
    """lemma (lean/KuTa12.lean): V with orthonormal columns, row v = V[j, :], v_k != 0; the thin QR factor Q of the columns V e_c - v_c / v_k V e_k, c != k, has orthonormal columns and
    Q Q^T = V V^T - (V v)(V v)^T / |v|^2"""
    g = ctx.ghost; S, t, Vt = g['S'], g['t'], g['Vt']
    if kw.get('mode') != 'economic' and not (len(args) > 3 and args[3] == 'economic'): raise Unsupported('qr mode')
    M = lib.to_arr(ctx, args[0]); f = M.snap()
    j, k = S.j(t), g.get('col')
    if k is None: raise Unsupported('qr: eliminated column unknown')
    ctx.check('qr: N rows, r - t - 1 columns', z3.And(to_int(M.axes[0].n) == S.N, to_int(M.axes[1].n) == S.r - t - 1))
    ctx.check('qr: the eliminated column has a nonzero pivot', z3.And(k >= 0, k < S.r - t, Vt(j, k) != 0))
    src = lambda m: z3.If(m < k, m, m + 1)
    ctx.check('qr: the columns are V e_c - V[j,c]/V[j,k] V e_k, c != k', All(lambda i, m: z3.Implies(z3.And(rng_in((i, S.N)), m >= 0, m < S.r - t - 1),
              f(i, m) == Vt(i, src(m)) - Vt(i, k) / Vt(j, k) * Vt(j, src(m))), 2))
    q = fresh_fn('Q', I, I, R); w = simp(S.r - t - 1)
    ctx.assume(orthonormal(S.N, w, q))
    ctx.assume(All(lambda i, l: z3.Implies(rng_in((i, S.N), (l, S.N)), mk_sum(w, lambda m: q(i, m) * q(l, m)) == S.R(t, i, l) - S.R(t, i, j) * S.R(t, l, j) / S.R(t, j, j)), 2))
    Q = lib.new(ctx, [S.N, w], R, lambda i, m: q(i, m))
    return (Q, Opaque('R factor'))

def np_delete(ctx, args, kw):
    M = args[0]; k = args[1]
    ax = kw.get('axis', args[2] if len(args) > 2 else None)
    if not (isinstance(M, Arr) and M.ndim == 2 and concrete(ax) in (1, -1)): return NotImplemented
    k = to_int(lib.norm_index(ctx, k, M.axes[1].n))
    ctx.ghost['col'] = k
    s = M.snap()
    return lib.new(ctx, [M.axes[0], Axis(simp(to_int(M.axes[1].n) - 1))], R, lambda i, m: s(i, z3.If(m < k, m, m + 1)))

class EigKuTa(EigSampler):
    telescoping = False
    target, title = 'dppy.exact_sampling:proj_dpp_sampler_eig_KuTa12', 'eigenvector sampler, Kulesza-Taskar with QR'
    loops = (KuLoop(),)
    roles = dict(EigSampler.roles, V=lambda v: isinstance(v, Arr) and v.ndim == 2 and not v.ro)
    externals = {'scipy.linalg.qr': qr_contract, 'numpy.linalg.qr': qr_contract, 'numpy.delete': np_delete}
    assumes = EigSampler.assumes + ('scipy.linalg.qr(mode=economic): orthonormal basis of the column space of a matrix of full column rank, with lemma KuTa12 (checked in Lean)',)
    def setup(self, ctx):
        a = super().setup(ctx)
        g = ctx.ghost; S = g['S']
        ctx.assume(orthonormal(S.N, S.r, g['Vf']))
        return a
    def on_draw(self, ctx, d):
        super().on_draw(ctx, d)
        g = ctx.ghost
        g['col'] = None
        S, t, Vt = g['S'], g['t'], g['Vt']
        # a positive sum has a nonzero term
        ctx.check('the drawn row is not null', mk_sum(S.r - t, lambda m: Vt(d.value, m) * Vt(d.value, m)) > 0)
        g['w'] = fresh('w', I)
        ctx.assume([g['w'] >= 0, g['w'] < S.r - t, Vt(d.value, g['w']) != 0])
    def witness(self, ctx, A): return ctx.ghost.get('w')

CONTRACTS = [EigGS, RowLemma, EigGSbis, EigDispatch, EigKuTa]
