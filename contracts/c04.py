from .base import *

def esp(ctx, lam, M):
    """e(k, n): elementary symmetric polynomials of lam_0..lam_{n-1}, defined by their recursion"""
    e = z3.Function('e', I, I, R)
    ctx.assume(All(lambda n: z3.Implies(n >= 0, e(0, n) == 1), name='e_0 = 1'))
    ctx.assume(All(lambda k: z3.Implies(k >= 1, e(k, 0) == 0), name='e_k of nothing'))
    ctx.assume(All(lambda k, n: z3.Implies(z3.And(k >= 1, n >= 1, n <= M), e(k, n) == e(k, n - 1) + lam(n - 1) * e(k - 1, n - 1)), 2, name='e recursion'))
    return e

class Outer(LoopSpec):
    name = 'degrees'
    def inv(self, ls):
        e, t = ls.g['e'], ls.it
        return [Def('E', lambda a, b: z3.If(a <= t, e(a, b), 0))]
class Inner(LoopSpec):
    name = 'variables'
    def inv(self, ls):
        e, t, k = ls.g['e'], ls.it, ls.outer.it + 1
        return [Def('E', lambda a, b: z3.If(z3.Or(a < k, z3.And(a == k, b <= t)), e(a, b), 0))]

class ESP(FnContract):
    prop, target = 'C04', 'dppy.exact_sampling:elementary_symmetric_polynomials'
    title = 'table of elementary symmetric polynomials'
    loops = (Outer(), Inner())
    roles = {'E': lambda v: isinstance(v, Arr) and v.ndim == 2}
    must_reach = ('pre', 'return', 'degrees:body', 'variables:body')
    def setup(self, ctx):
        M, k = z3.Ints('M k'); ctx.assume([M >= 0, k >= 0])
        lam, lf = vector(ctx, 'lam', M)
        ctx.ghost.update(M=M, k=k, e=esp(ctx, lf, M))
        return [lam, k], {}
    def on_return(self, ctx, E):
        g = ctx.ghost; s = E.snap()
        ctx.check('shape is (size + 1, N + 1)', z3.And(to_int(E.axes[0].n) == g['k'] + 1, to_int(E.axes[1].n) == g['M'] + 1))
        ctx.check('E[k, n] = e_k(lambda_1..lambda_n)', All(lambda a, b: z3.Implies(rng_in((a, g['k'] + 1), (b, g['M'] + 1)), s(a, b) == g['e'](a, b)), 2))

class BernSelect(FnContract):
    prop, target = 'C04', 'dppy.exact_sampling:dpp_eig_vecs_selector'
    title = 'Bernoulli selection of eigenvectors'
    def setup(self, ctx):
        N, M = z3.Ints('N M'); ctx.assume([N >= 0, M >= 0])
        p, pf = vector(ctx, 'p', M); V, Vf = matrix(ctx, 'V', N, M)
        ctx.ghost.update(N=N, M=M, p=pf, V=Vf)
        return [p, V, Rng()], {}
    def on_return(self, ctx, W):
        g = ctx.ghost; N, M, p, V = g['N'], g['M'], g['p'], g['V']
        ds = [d for d in ctx.draws]
        if len(ds) != 1 or ds[0].method != 'rand' or len(ds[0].dims) != 1: raise Unsupported('one vector of uniforms expected')
        u = ds[0].f
        ctx.check('one uniform per eigenvector', to_int(ds[0].dims[0]) == M)
        ctx.assume(All(lambda n: u(n) != p(n)))
        if not isinstance(W, Arr) or W.ndim != 2 or W.axes[1].mask is None: raise Unsupported('column selection expected')
        m, s = W.axes[1].mask, W.snap()
        ctx.check('all rows', z3.And(to_int(W.axes[0].n) == N, to_int(W.axes[1].n) == M))
        ctx.check('column n is kept with probability p_n, independently', All(lambda n: z3.Implies(rng_in((n, M)), m(n) == (u(n) < p(n)))))
        ctx.check('kept columns are the eigenvectors', All(lambda i, n: z3.Implies(rng_in((i, N), (n, M)), s(i, n) == V(i, n)), 2))

class Back(LoopSpec):
    name = 'backward pass'
    def inv(self, ls):
        g, ctx = ls.g, ls.ctx
        e, M, K, k = g['e'], g['M'], g['K'], to_int(ls.v('k'))
        n = M - ls.it
        f = lib.elem_snap(ctx, ls.v('ind_selected'))
        return [('1 <= k <= size', z3.And(k >= 1, k <= K)),
                ('the remaining problem has positive weight', e(k, n) > 0),
                ('selected indices are among the visited ones', All(lambda a: z3.Implies(z3.And(a >= k, a < K), z3.And(f(a) >= n, f(a) < M)))),
                ('selected indices are increasing', All(lambda a, b: z3.Implies(z3.And(a >= k, a < b, b < K), f(a) < f(b)), 2))]
    def begin(self, ls):
        ls.ctx.reset_weight(); ls.k0 = to_int(ls.v('k'))
        ls.f0 = lib.elem_snap(ls.ctx, ls.v('ind_selected'))
    def step(self, ls, it):
        ctx, g = ls.ctx, ls.g
        e, M, k0, k1 = g['e'], g['M'], ls.k0, to_int(ls.v('k'))
        n = simp(M - it); lam = g['lam']
        f1 = lib.elem_snap(ctx, ls.v('ind_selected'))
        sel = ctx.entailed(k1 == k0 - 1) is True
        if sel:
            ctx.check('the visited eigenvector is recorded', f1(k1) == n - 1)
            ctx.check('earlier selections are kept', All(lambda a: z3.Implies(z3.And(a >= k0, a < g['K']), f1(a) == ls.f0(a))))
            ctx.check('selected with the k-DPP mixture weight', ctx.total_weight() == lam(n - 1) * e(k0 - 1, n - 1) / e(k0, n))
        else:
            ctx.check('nothing else changes k', k1 == k0)
            ctx.check('skipped with the complementary weight', ctx.total_weight() == e(k0, n - 1) / e(k0, n))
    def end(self, ls): self.step(ls, ls.it - 1)
    def on_break(self, ls):
        ctx, g = ls.ctx, ls.g
        self.step(ls, ls.it)
        k, K, n = to_int(ls.v('k')), g['K'], g['M'] - ls.it - 1
        f = lib.elem_snap(ctx, ls.v('ind_selected')); g['sel'] = f
        ctx.check('stops when all are selected', k == 0)
        ctx.check('selected indices in range', All(lambda a: z3.Implies(z3.And(a >= 0, a < K), z3.And(f(a) >= 0, f(a) < g['M']))))
        ctx.check('selected indices are distinct', All(lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < K), f(a) < f(b)), 2))
    def exit(self, ls):
        # invariant: e(k, 0) > 0 with k >= 1, impossible
        ls.ctx.check('size eigenvectors are always selected before the list is exhausted', False)
        raise PathEnd()

class KSelect(FnContract):
    prop, target = 'C04', 'dppy.exact_sampling:k_dpp_eig_vecs_selector'
    title = 'k-DPP selection of eigenvectors'
    loops = (Back(),)
    roles = {'ind_selected': lambda v: isinstance(v, (Arr, Lst)), 'k': lambda v: lib.scalar_sort(v) is not None}
    scenarios = ('E_poly=None', 'E_poly given')
    must_reach = ('pre', 'return', 'backward pass:body', 'backward pass:break', 'raise:ValueError')
    def setup(self, ctx):
        N, M, K, Q = z3.Ints('N M K Q'); ctx.assume([N >= 1, M >= 1, K >= 1, N >= M, Q >= K])
        lam, lf = vector(ctx, 'lam', M); V, Vf = matrix(ctx, 'V', N, M)
        ctx.assume(All(lambda n: z3.Implies(rng_in((n, M)), lf(n) >= 0), name='eigenvalues are nonnegative'))
        e = esp(ctx, lf, M)
        ctx.assume(All(lambda k, n: z3.Implies(z3.And(k >= 0, n >= 0, n <= M), e(k, n) >= 0), 2, name='e >= 0 (lemma)'))
        ctx.ghost.update(N=N, M=M, K=K, e=e, lam=lf, V=Vf, rank=None)
        E = None
        if self.scenario != 'E_poly=None':
            E = lib.new(ctx, [Q + 1, M + 1], R, lambda a, b: e(a, b)); E.ro, E.name = True, 'E_poly'
        return [lam, V, K, E, Rng()], {}
    def on_count(self, ctx, c, n, mask):
        g = ctx.ghost
        ctx.check('the rank counts nonzero eigenvalues only', All(lambda i: z3.Implies(z3.And(rng_in((i, g['M'])), mask(i)), g['lam'](i) > 0)))
        ctx.assume(z3.Implies(c >= g['K'], g['e'](g['K'], g['M']) > 0))       # lemma: k positive eigenvalues give e_k > 0
        g['rank'] = c
    @staticmethod
    def esp_contract(ctx, loc):
        g = ctx.ghost; k = to_int(loc['size'])
        s = loc['eig_vals'].snap()
        ctx.check('callee gets the eigenvalues', All(lambda n: z3.Implies(rng_in((n, g['M'])), s(n) == g['lam'](n))))
        ctx.check('callee precondition size >= 0', k >= 0)
        return lib.new(ctx, [k + 1, g['M'] + 1], R, lambda a, b: g['e'](a, b))
    uses = dict(FnContract.uses)
    def on_return(self, ctx, W):
        g = ctx.ghost; V, sel = g['V'], g['sel']
        s = W.snap()
        ctx.check('size columns, all rows', z3.And(to_int(W.axes[0].n) == g['N'], to_int(W.axes[1].n) == g['K'], W.axes[1].mask is None and W.axes[0].mask is None))
        ctx.check('columns are the selected eigenvectors', All(lambda i, a: z3.Implies(rng_in((i, g['N']), (a, g['K'])), s(i, a) == V(i, sel(a))), 2))
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError' or ctx.ghost['rank'] is None: return FnContract.on_raise(self, ctx, e)
        ctx.check('refused only when size exceeds the numerical rank', ctx.ghost['K'] > ctx.ghost['rank'])
KSelect.uses['dppy.exact_sampling:elementary_symmetric_polynomials'] = KSelect.esp_contract

CONTRACTS = [ESP, BernSelect, KSelect]
