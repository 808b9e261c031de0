"""C14: exotic processes as functions of their draws"""
from .base import *

def masked(v):
    """(domain, mask, value): the list of value(i) for the i of the domain with mask(i), in increasing order"""
    if isinstance(v, Lst) and getattr(v, 'masked', None): A, s, pos = v.masked
    elif isinstance(v, Arr) and v.ndim == 1 and v.axes[0].mask is not None: A, s = v.axes[0], v.snap()
    else: raise Unsupported('list of positions')
    return A, s

class History(FnContract):
    prop = 'C14'
    attrs = ()
    must_reach = ('pre', 'return')
    def setup(self, ctx):
        size = z3.Int('size'); ctx.assume(size >= 1)
        old = Lst(None, z3.Int('len_samples'), None, None)
        ctx.assume(old.n >= 0)
        g = ctx.ghost
        g.update(size=size, samples=old, n0=old.n, appended=[], sigma=None, draws=[])
        o = Obj(self.self_class(ctx), dict(list_of_samples=old, size=z3.Int('size0'), name=StrV()))
        self.obj(ctx, o)
        g['self'] = o
        return self.args(ctx, o), {}
    def self_class(self, ctx):
        mname, qual = self.target.split(':'); mod = ctx.repo.module(mname)
        return ClassVal(mod, mod.defs[qual.split('.')[0]], mname + ':' + qual.split('.')[0])
    def obj(self, ctx, o): pass
    def args(self, ctx, o): return [o, ctx.ghost['size'], Rng()]
    def on_append(self, ctx, o, v):
        ctx.ghost['appended'].append((o, v)); o.n = simp(to_int(o.n) + 1)
        return None
    def one_sample(self, ctx):
        g = ctx.ghost
        mine = [v for o, v in g['appended'] if o is g['samples']]
        ctx.check('exactly one sample is recorded', len(mine) == 1 and g['self'].attrs.get('list_of_samples') is g['samples'])
        if len(mine) != 1: raise PathEnd()
        return mine[0]
    def positions(self, ctx, v, n, cond, value, what):
        """v lists value(i) for the i in 0..n-1 with cond(i), in increasing order"""
        A, s = masked(v)
        off = simp(to_int(value(z3.IntVal(0))))
        ctx.check('candidate positions', to_int(A.n) == n)
        ctx.check(what, All(lambda i: z3.Implies(rng_in((i, n)), A.mask(i) == cond(i))))
        ctx.check('position numbering', All(lambda i: z3.Implies(z3.And(rng_in((i, n)), cond(i)), to_int(s(i)) == value(i))))

def permutation(ctx, loc):
    """contract of uniform_permutation, proved under C12"""
    g = ctx.ghost
    ctx.check('one permutation is drawn', g['sigma'] is None)
    N = to_int(loc['N'])
    ctx.check('uniform_permutation is called with the generator', isinstance(loc.get('random_state'), Rng))
    f = fresh_fn('sigma', I, I)
    ctx.assume(All(lambda a: z3.Implies(rng_in((a, N)), z3.And(f(a) >= 0, f(a) < N))))
    ctx.assume(All(lambda a, b: z3.Implies(z3.And(rng_in((a, N), (b, N)), f(a) == f(b)), a == b), 2))
    g['sigma'], g['sigma_n'] = f, N
    return lib.new(ctx, [N], I, lambda i: f(i))
PERM = {'dppy.exotic_dpps_core:uniform_permutation': permutation}

class Carries(History):
    target, title = 'dppy.exotic_dpps:CarriesProcess.sample', 'carries process'
    def obj(self, ctx, o):
        b = z3.Int('base'); ctx.assume(b >= 2); o.attrs['base'] = b; ctx.ghost['b'] = b
    def on_draw(self, ctx, d):
        g = ctx.ghost
        if d.method != 'randint' or not hasattr(d, 'args'): return None
        lo, hi, sz = lib.arg(d.args, d.kw, 0, 'low'), lib.arg(d.args, d.kw, 1, 'high'), lib.arg(d.args, d.kw, 2, 'size')
        if hi is None: lo, hi = 0, lo
        ctx.check('digits are uniform on 0..base-1', z3.And(to_int(lo) == 0, to_int(hi) == g['b']))
        ctx.check('one vector of digits is drawn', not g['draws'])
        n = to_int(sz[0] if isinstance(sz, tuple) else sz)
        ctx.check('size digits', n == g['size'])
        f = fresh_fn('digit', I, I)
        ctx.assume(All(lambda i: z3.Implies(rng_in((i, n)), z3.And(f(i) >= 0, f(i) < g['b']))))
        g['digits'] = f; g['draws'].append(d)
        return lib.new(ctx, [n], I, lambda i: f(i))
    def on_return(self, ctx, v):
        g = ctx.ghost; n, b = g['size'], g['b']
        v = self.one_sample(ctx)
        if len(g['draws']) != 1: ctx.check('digits are drawn', False); return
        d = g['digits']
        # running sum modulo the base, by its recursion
        r = fresh_fn('carry_sum', I, I)
        ctx.assume([r(z3.IntVal(0)) == d(z3.IntVal(0))])
        ctx.assume(All(lambda i: z3.Implies(z3.And(i >= 0, i + 1 < n), r(i + 1) == z3.If(r(i) + d(i + 1) >= b, r(i) + d(i + 1) - b, r(i) + d(i + 1)))))
        ctx.assume(All(lambda i: z3.Implies(rng_in((i, n)), z3.And(r(i) >= 0, r(i) < b))))
        self.bridge(ctx, d, r)
        self.positions(ctx, v, n - 1, lambda i: r(i) + d(i + 1) >= b, lambda i: i + 1, 'i is listed exactly when adding digit i+1 carries')
    def bridge(self, ctx, d, r):
        """running sums modulo the base: proved by induction (step: ModStep)"""
        g = ctx.ghost; n, b = g['size'], g['b']
        S = g.get('cumsum')
        if S is None: return
        P = lambda i: S(i) % b == r(i)
        ctx.check('induction base: first running sum', P(z3.IntVal(0)))
        k = fresh('k', I)
        # lemma ModStep: (x + a) mod b = x mod b + a, less b when that is not smaller than b
        ctx.assume(All(lambda x, a: z3.Implies(z3.And(a >= 0, a < b), (x + a) % b == z3.If(x % b + a >= b, x % b + a - b, x % b + a)), 2, name='ModStep'))
        ctx.check('induction step: running sums', z3.Implies(z3.And(k >= 0, k + 1 < n, P(k)), P(k + 1)))
        ctx.assume(All(lambda i: z3.Implies(rng_in((i, n)), P(i))))
    def cumsum(ctx, args, kw):
        r = lib.EXT['numpy.cumsum'](ctx, args, kw)
        ctx.ghost['cumsum'] = r.snap()
        return r
    externals = {'numpy.cumsum': cumsum}
    del cumsum

class ModStep(FnContract):
    prop, target, title = 'C14', 'lemma:ModStep', 'lemma: adding a digit modulo the base'
    must_reach = ()
    def run(self, ctx):
        q, r, a, b = z3.Ints('q r a b')
        ctx.assume([r >= 0, r < b, a >= 0, a < b])
        x = fresh('x', I)
        ctx.assume([x == q * b + r])
        # quotient and remainder are characterised by x = q b + r, 0 <= r < b
        def rem(x, r, q): return z3.And(x == q * b + r, r >= 0, r < b)
        ctx.check('no carry', z3.Implies(r + a < b, rem(x + a, r + a, q)))
        ctx.check('carry', z3.Implies(r + a >= b, rem(x + a, r + a - b, q + 1)))

class Descents(History):
    target, title = 'dppy.exotic_dpps:DescentProcess.sample', 'descent process'
    uses = dict(History.uses, **PERM)
    def on_return(self, ctx, v):
        g = ctx.ghost; n, f = g['size'], g['sigma']
        v = self.one_sample(ctx)
        if f is None: ctx.check('a permutation is drawn', False); return
        ctx.check('permutation of size elements', g['sigma_n'] == n)
        self.positions(ctx, v, n - 1, lambda i: f(i) > f(i + 1), lambda i: i + 1, 'position i is listed exactly when sigma(i) > sigma(i+1)')

class Virtual(History):
    target, title = 'dppy.exotic_dpps:VirtualDescentProcess.sample', 'virtual descent process'
    uses = dict(History.uses, **PERM)
    def obj(self, ctx, o):
        x = z3.Real('x_0'); ctx.assume([x >= 0, x <= 1]); o.attrs['x_0'] = x; ctx.ghost['x'] = x
    def on_draw(self, ctx, d):
        g = ctx.ghost
        if d.method != 'binomial': return None
        k, p, sz = (lib.arg(d.args, d.kw, i, a) for i, a in enumerate(('n', 'p', 'size')))
        ctx.check('marks are binomial(2, x_0)', z3.And(to_int(k) == 2, to_real(p) == g['x']))
        ctx.check('one vector of marks', not g['draws'])
        n = to_int(sz[0] if isinstance(sz, tuple) else sz)
        f = fresh_fn('mark', I, I)
        ctx.assume(All(lambda i: z3.Implies(rng_in((i, n)), z3.And(f(i) >= 0, f(i) <= 2))))
        g['marks'], g['marks_n'] = f, n; g['draws'].append(d)
        return lib.new(ctx, [n], I, lambda i: f(i))
    def on_return(self, ctx, v):
        g = ctx.ghost; n, f = g['size'], g['sigma']
        v = self.one_sample(ctx)
        if f is None or len(g['draws']) != 1: ctx.check('a permutation and marks are drawn', False); return
        ctx.check('permutation of size + 1 elements', g['sigma_n'] == n + 1)
        ctx.check('size + 1 marks', g['marks_n'] == n + 1)
        y = lambda i: g['marks'](i) != 1
        self.positions(ctx, v, n, lambda i: z3.And(z3.Not(y(i)), z3.Or(y(i + 1), f(i) > f(i + 1))), lambda i: i, 'position i is listed exactly when mark i is unset and mark i+1 is set or sigma(i) > sigma(i+1)')

class Plancherel(History):
    target, title = 'dppy.exotic_dpps:PoissonizedPlancherel.sample', 'Poissonised Plancherel measure'
    def rsk(ctx, loc):
        """contract of RSK (C13): the rows of the tableaux; only the row lengths are used"""
        g = ctx.ghost
        s = loc['sequence']
        ctx.check('RSK of the permutation', isinstance(s, Arr) and s is g['perm'])
        rows, L = z3.Int('rows'), fresh_fn('lambda', I, I)
        ctx.assume([rows >= 0]); ctx.assume(All(lambda i: z3.Implies(rng_in((i, rows)), L(i) >= 1)))
        g['rows'], g['lam'] = rows, L
        return (Tableau(rows, L), Tableau(rows, L))
    def perm(ctx, loc):
        r = permutation(ctx, loc); ctx.ghost['perm'] = r; r.ro = True; return r
    uses = dict(History.uses, **{'dppy.exotic_dpps_core:uniform_permutation': perm, 'dppy.exotic_dpps_core:RSK': rsk})
    del rsk, perm
    def obj(self, ctx, o):
        th = z3.Real('theta'); ctx.assume(th > 0); o.attrs['theta'] = th
        y = Lst(None, z3.Int('len_young'), None, None); o.attrs['list_of_young_diag'] = y
        ctx.ghost.update(theta=th, young=y)
    def args(self, ctx, o): return [o, Rng()]
    def on_draw(self, ctx, d):
        g = ctx.ghost
        if d.method != 'poisson': return None
        ctx.check('Poisson(theta) draw', z3.And(to_real(lib.arg(d.args, d.kw, 0, 'lam')) == g['theta']) if lib.arg(d.args, d.kw, 1, 'size') is None else False)
        ctx.check('one Poisson draw', not g['draws'])
        N = fresh('N', I); ctx.assume(N >= 0)
        g['N'] = N; g['draws'].append(d)
        return N
    def on_return(self, ctx, v):
        g = ctx.ghost
        v = self.one_sample(ctx)
        if g.get('N') is None or g.get('lam') is None: ctx.check('a permutation of Poisson size is mapped by RSK', False); return
        ctx.check('permutation of Poisson size', g['sigma_n'] == g['N'])
        ys = [y for o, y in g['appended'] if o is g['young']]
        ctx.check('exactly one Young diagram is recorded', len(ys) == 1)
        n, L = g['rows'], g['lam']
        f, y = lib.elem_snap(ctx, v), lib.elem_snap(ctx, ys[0])
        ctx.check('as many entries as rows', z3.And(to_int(lib.lens(v)[0]) == n, to_int(lib.lens(ys[0])[0]) == n))
        ctx.check('entry i is lambda_i - i + 1/2', All(lambda i: z3.Implies(rng_in((i, n)), to_real(f(i)) == z3.ToReal(L(i)) - z3.ToReal(i + 1) + z3.RealVal('1/2'))))
        ctx.check('the diagram recorded is the RSK shape', All(lambda i: z3.Implies(rng_in((i, n)), to_int(y(i)) == L(i))))

class Tableau:
    """list of rows of known lengths and unknown contents"""
    def __init__(self, n, L): self.n, self.L = n, L
    def v_len(self, ctx): return self.n
    def v_iter(self, ctx): return self.n, lambda i: Row(self.L(to_int(i)))
class Row:
    def __init__(self, n): self.n = n
    def v_len(self, ctx): return self.n
CONTRACTS = [Carries, ModStep, Descents, Virtual, Plancherel]
