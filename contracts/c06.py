"""C06: well formed MCMC chains"""
from .mcmc import *
class AED06(AED): prop = 'C06'
class AD06(AD): prop = 'C06'
class E06(Ex): prop = 'C06'

# ---------------------------------------------------------------- initial states
class Trial(LoopSpec):
    name = 'trials'
    def inv(self, ls):
        ctx, g = ls.ctx, ls.g
        S, d = ls.v('S0'), ls.v('det_S0')
        if isinstance(S, (Lst, tuple)) and getattr(S, 'gset', None) is None:
            if ctx.entailed(to_int(lib.lens(S)[0]) == 0) is not True: raise Unsupported('trial state')
            return [('no trial yet', to_real(d) == 0)]
        out = [(n, f) for n, f in valid(ctx, S) if 'determinant' not in n]
        if ctx.ghost.get('size') is not None: out.append(('requested cardinality', z3.Implies(to_real(d) != 0, to_int(lib.lens(S)[0]) == ctx.ghost['size'])))
        return out + [('determinant of the trial state', z3.Implies(to_real(d) != 0, to_real(d) == DET(in_gset(S))))]
    def fresh_value(self, ls, name, old):
        if ls.ctx.run.rolemap.get('S0', 'S0') != name: return NotImplemented
        k, N = fresh('k', I), ls.ctx.ghost['N']; ls.ctx.assume([k >= 0, k <= N])
        return subset(ls.ctx, k, N, 'trial')

def draw_subset(ctx, d):
    """choice(n, size=k, replace=False): k distinct elements of 0..n-1"""
    if d.method == 'randint': return None
    if d.method != 'choice' or not hasattr(d, 'args'): return None
    args, kw = d.args, d.kw
    a = lib.arg(args, kw, 0, 'a'); k = lib.arg(args, kw, 1, 'size'); rep = lib.arg(args, kw, 2, 'replace', True); p = lib.arg(args, kw, 3, 'p')
    if rep is not False: ctx.check('items are drawn without replacement', False); return None
    if p is not None: raise Unsupported('weighted draw')
    if not (lib.is_scalar(a) and lib.isint(a)):
        r = lib.to_arr(ctx, a); s = r.snap(); j = fresh('j', I)
        if not (z3.eq(simp(s(j)), j) and r.axes[0].mask is None): raise Unsupported('draw from an array')
        a = r.axes[0].n
    a, k = to_int(a), to_int(k)
    ctx.check('not more items drawn than available', z3.And(k >= 0, k <= a), kind='definedness')
    S = subset(ctx, k, a)
    return S
def subset(ctx, k, a, name='drawn'):
    f = fresh_fn(name, I, I)
    A = lib.new(ctx, [k], I, lambda i: f(i))
    A.gset = fresh('set_' + name, SET)
    l = Lst(None, k, lambda i: f(to_int(i)), I); l.gset = A.gset
    lib.gset_facts(ctx, l)
    ctx.assume(lib.distinct_goal(f, k))
    ctx.assume(All(lambda x: z3.Implies(z3.Select(A.gset, x), z3.And(x >= 0, x < a)), name='drawn range'))
    return A
def intersect(ctx, args, kw):
    """intersect1d: sorted distinct common values"""
    a, b = args[0], args[1]
    kw.get('assume_unique')         # both lists are distinct by construction
    if getattr(b, 'gset', None) is not None and getattr(a, 'gset', None) is None: a, b = b, a
    if getattr(a, 'gset', None) is None: return NotImplemented
    r = lib.to_arr(ctx, b); s = r.snap(); j = fresh('j', I)
    if not (z3.eq(simp(s(j)), j) and r.axes[0].mask is None): raise Unsupported('intersection with an array')
    n = to_int(r.axes[0].n); k = fresh('common', I)
    ctx.assume([k >= 0, k <= n])           # distinct items of 0..n-1
    A = subset(ctx, k, n, 'common')
    ctx.assume(All(lambda x: z3.Implies(z3.Select(A.gset, x), z3.Select(a.gset, x))))
    return A

class Init(FnContract):
    prop = 'C06'
    must_reach = ('pre', 'return', 'raise:ValueError')
    cut_concrete = True
    loops = (Trial(),)
    uses = dict(FnContract.uses, **{'dppy.utils:det_ST': det_contract})
    externals = {'numpy.linalg.det': det_external, 'scipy.linalg.det': det_external, 'numpy.intersect1d': intersect}
    roles = {'S0': lambda v: getattr(v, 'gset', None) is not None or isinstance(v, (Lst, tuple, Arr)), 'det_S0': lambda v: lib.scalar_sort(v) is not None and not lib.isint(v)}
    def setup(self, ctx):
        N = z3.Int('N'); ctx.assume(N >= 1)
        K, _ = matrix(ctx, 'kernel', N, N)
        ctx.ghost.update(N=N, kernel=K)
        return self.args(ctx, K), {}
    def args(self, ctx, K): return [K, Rng()]
    def on_draw(self, ctx, d): return draw_subset(ctx, d)
    def on_return(self, ctx, v):
        g = ctx.ghost
        if not isinstance(v, Lst): raise Unsupported('initial state is not a list')
        if getattr(v, 'gset', None) is None:
            ctx.check('the initial state has positive determinant', False); return
        for n, f in valid(ctx, v, 'initial state: '): ctx.check(n, f)
        if g.get('size') is not None: ctx.check('initial state: requested cardinality', to_int(lib.lens(v)[0]) == g['size'])
    def on_raise(self, ctx, e):
        if e.kind != 'ValueError': return FnContract.on_raise(self, ctx, e)

class InitAED(Init):
    target, title = 'dppy.mcmc_sampling:initialize_AED_sampler', 'initial state of the AED chain'
class InitADE(Init):
    target, title = 'dppy.mcmc_sampling:initialize_AD_and_E_sampler', 'initial state of the AD and E chains'
    scenarios = ('size=None', 'size given')
    def args(self, ctx, K):
        if self.scenario == 'size=None': return [K, None, Rng()]
        k = z3.Int('size'); ctx.assume([k >= 1, k <= ctx.ghost['N']])
        ctx.ghost['size'] = k
        return [K, k, Rng()]

# ---------------------------------------------------------------- dispatch
def passes(kind):
    def use(ctx, loc):
        g = ctx.ghost
        rng = loc.get('random_state', loc.get('rng'))
        ctx.check('%s: kernel' % kind, loc['kernel'] is g['kernel'])
        ctx.check('%s: generator' % kind, rng is g['rng'])
        g.setdefault('calls', []).append(kind)
        if kind.startswith('init'):
            if g['mode'] == 'E': ctx.check('the initial state has the requested cardinality', loc.get('size') is g['size'])
            elif 'size' in loc: ctx.check('no cardinality is imposed', loc.get('size') is None)
            S = state(ctx, 'I'); g['s'] = S
            return S
        ctx.check('the chain starts at the given or initialised state', loc['s_init'] is g['s'])
        ctx.check('number of iterations', loc['nb_iter'] is g['nb_iter'] if g['nb_iter'] is not None else concrete(loc['nb_iter']) == 10)
        ctx.check('time limit', loc['T_max'] is g['T_max'])
        g['out'] = Opaque('chain of ' + kind)
        return g['out']
    return use
SAMPLERS = dict(AED='add_exchange_delete_sampler', AD='add_delete_sampler', E='basis_exchange_sampler')
INITS = dict(AED='initialize_AED_sampler', AD='initialize_AD_and_E_sampler', E='initialize_AD_and_E_sampler')
class DispatchMcmc(FnContract):
    prop, target, title = 'C06', 'dppy.mcmc_sampling:dpp_sampler_mcmc', 'choice of the chain'
    scenarios = tuple((m, s) for m in ('AED', 'AD', 'E') for s in ('defaults', 's_init', 'T_max', 'all'))
    uses = dict(FnContract.uses, **{'dppy.mcmc_sampling:' + v: passes(v) for v in set(SAMPLERS.values()) | {'initialize_AED_sampler'}})
    uses['dppy.mcmc_sampling:initialize_AD_and_E_sampler'] = passes('initialize_AD_and_E_sampler')
    def setup(self, ctx):
        mode, what = self.scenario
        N = z3.Int('N'); ctx.assume(N >= 1)
        K, _ = matrix(ctx, 'kernel', N, N)
        rng, g = Rng(), ctx.ghost
        g.update(N=N, kernel=K, rng=rng, mode=mode, size=None, s=None, nb_iter=None, T_max=None, calls=[])
        params = dict(random_state=rng)
        if what in ('s_init', 'all'):
            g['s'] = params['s_init'] = state(ctx, 'given')
        if what == 'all': g['nb_iter'] = params['nb_iter'] = z3.Int('nb_iter')
        if what in ('T_max', 'all'): g['T_max'] = params['T_max'] = z3.Real('T_max')
        if mode == 'E' and what != 'defaults': g['size'] = params['size'] = z3.Int('size')
        return [K, mode], params
    def on_return(self, ctx, v):
        g = ctx.ghost; mode, what = self.scenario
        ctx.check('the chain of the requested mode is returned', v is g.get('out'))
        ctx.check('one chain', g['calls'] == ([] if what in ('s_init', 'all') else [INITS[mode]]) + [SAMPLERS[mode]])

CONTRACTS = [AED06, AD06, E06, InitAED, InitADE, DispatchMcmc]
