"""C09: intermediate rejection samplers (vfx, alpha)"""
from .points import *
from . import finite
from .c10 import dictionary, stable, invroot, svd, DICT
IM, ES, FD = 'dppy.intermediate_sampling', 'dppy.exact_sampling', 'dppy.finite_dpps:FiniteDPP'
VFX = ['alpha_star', 'logdet_I_A', 'q', 's', 'z', 'rls_estimate', 'rej_to_first_sample']
ALPHA = ['alpha_hat', 'alpha_min', 'alpha_max', 'k', 'eigvecs_L_hat', 'eigvals_L_hat', 'deff_alpha_L_hat', 'rls_upper_bound', 'rls_upper_bound_valid', 'r', 'dict_alphadpp', 'diag_L', 'rej_to_first_sample', 'trial_to_first_sample', 'alpha_switches']
LAW = ('lemma (Derezinski, Calandriello, Valko 2019): independent counts c_i ~ Poisson(e^(1/r) w_i), acceptance probability proportional to e^(-t/r) det(I + alpha D L D), D = diag(sqrt(c_i / w_i)), then DPP(alpha D L D) on the distinct items: the sample follows DPP(alpha L) as soon as the acceptance probability is at most 1',
       'lemma: log det(M + D^-2) + log det D^2 = log det(I + D M D) for a positive diagonal D')

class Rounds(LoopSpec):
    """rejection rounds: each round draws its own counts and uniform, and is accepted with the probability of the lemma"""
    name = 'rounds'
    def begin(self, ls): ls.ctx.contract.new_round(ls.ctx)
    def end(self, ls): ls.ctx.contract.decided(ls.ctx, False)
    def on_break(self, ls): ls.ctx.contract.decided(ls.ctx, True)

class Loop(FnContract):
    """shared part of the two rejection samplers: cnt(i), w(i) = c_i / (mean of c_i after tilting), alpha"""
    prop = 'C09'
    reindex = True
    loops = (Rounds(),)
    must_reach = ('pre', 'return', 'rounds:body')
    def new_round(self, ctx): ctx.ghost.update(us=[], det=None, t=None, mask=None, eig=None, out=None, cnt=None)
    def on_uniform(self, ctx, d):
        ctx.uniforms.pop(d.u.get_id()); ctx.assume([d.u > 0, d.u < 1]); ctx.ghost['us'] = ctx.ghost['us'] + [d.u]
    def decided(self, ctx, acc):
        g = ctx.ghost
        ok = len(g['us']) == 1 and g['det'] is not None and g['t'] is not None
        ctx.check('one uniform draw and one determinant per round', ok)
        if not ok: raise PathEnd()
        u, T = g['us'][0], self.threshold(ctx)
        if acc: ctx.check('rounds are accepted with the probability of the lemma', LOG(u) <= T)
        else: ctx.check('rounds are only rejected by the probability of the lemma', LOG(u) >= T)
    def on_raise(self, ctx, e):
        ctx.check('only ValueError is raised', e.kind == 'ValueError', kind='exception')
    def witness(self, ctx, A): return ctx.ghost.get('some')
    def slogdet(ctx, args, kw):
        """sign and logarithm of the determinant of I + alpha D L D, or of alpha L + D^-2"""
        c, g = ctx.contract, ctx.ghost
        a = lib.to_arr(ctx, args[0]); s = a.snap()
        ctx.check('one determinant per round', g['det'] is None)
        A = c.items(ctx, a.axes[0], 'rows of the matrix'); c.items(ctx, a.axes[1], 'columns of the matrix')
        i, j = fresh('i', I), fresh('j', I)
        x, al = g['x'], g['alpha']
        w = lambda i: c.w(ctx, i)
        nh = len(ctx.hyps)
        ctx.assume([A(i), A(j), rng_in((i, g['n']), (j, g['n']))])
        ctx.assume([w(i) > 0, w(j) > 0])
        L = LK(x(i), x(j))
        g['det'] = LD = fresh('logdet', R); sign = fresh('sign', R)
        form1 = s(i, j) == al * L + z3.If(i == j, 1 / w(i), 0)
        d = {}
        c.roots(ctx, i); c.roots(ctx, j)
        if ctx.prove(z3.substitute(form1, (j, i))):
            ctx.check('the matrix is alpha L + D^-2', form1)
            ctx.hyps = ctx.hyps[:nh] if isinstance(ctx.hyps, list) else ctx.hyps
            r = LD + mk_sum(g['n'], lambda i: z3.If(A(i), LOG(s(i, i) - al * LK(x(i), x(i))), z3.RealVal(0)))
        else:
            ctx.check('the matrix is I + alpha D L D', s(i, j) == al * c.v(ctx, i) * L * c.v(ctx, j) + z3.If(i == j, z3.RealVal(1), 0))
            r = LD
        return (sign, r)
    def eigh(ctx, args, kw):
        c, g = ctx.contract, ctx.ghost
        a = lib.to_arr(ctx, args[0]); s = a.snap()
        A = c.items(ctx, a.axes[0], 'rows of the kernel'); c.items(ctx, a.axes[1], 'columns of the kernel')
        i, j = fresh('i', I), fresh('j', I); x = g['x']
        ctx.assume([A(i), A(j), rng_in((i, g['n']), (j, g['n'])), c.w(ctx, i) > 0, c.w(ctx, j) > 0])
        c.roots(ctx, i); c.roots(ctx, j)
        ctx.check('the kernel is alpha D L D', s(i, j) == g['alpha'] * c.v(ctx, i) * LK(x(i), x(j)) * c.v(ctx, j))
        g['eig'] = (Opaque('eigenvalues'), Opaque('eigenvectors'))
        g['kaxis'] = a.axes[0]
        return g['eig']
    externals = {'numpy.linalg.slogdet': slogdet, 'numpy.linalg.eigh': eigh, 'scipy.linalg.eigh': eigh,
                 'numpy.array': lambda ctx, args, kw: args[0] if isinstance(args[0], lib.RelArr) and (kw.get('dtype'), len(args)) else NotImplemented}
    def dpp_init(ctx, loc):
        g = ctx.ghost
        p = loc.get('params') or {}
        ok = g['eig'] is not None and isinstance(p.get('L_eig_dec'), (tuple, Lst)) and set(p) == {'L_eig_dec'}
        ctx.check('a DPP is built from the eigendecomposition of the kernel', ok and loc['kernel_type'] == 'likelihood' and loc.get('projection') is False)
        if not ok: raise PathEnd()
        e = p['L_eig_dec']; e = tuple(e.items) if isinstance(e, Lst) else e
        ctx.check('eigenvalues and eigenvectors of the kernel', len(e) == 2 and e[0] is g['eig'][0] and e[1] is g['eig'][1])
        g['dpp'] = loc['self']
    def dpp_sample(ctx, loc):
        g = ctx.ghost; p = loc.get('params') or {}
        ctx.check('the sample is drawn from the downsampled DPP', g.get('dpp') is loc['self'] and g['out'] is None and loc.get('mode') in ('GS', 'GS_bis', 'KuTa12'))
        ctx.check('the sample is drawn with the given generator', p.get('random_state') is g['rng'] and set(p) <= {'random_state'})
        S = fresh_fn('inS', I, B); A = g['kaxis']
        g['out'] = lambda i: z3.And(A.mask(i), S(i))
        return lib.RelArr(A, lambda i: z3.And(A.mask(i), S(i)))
    uses = dict(FnContract.uses, **{'dppy.utils:get_progress_bar': bar, FD + '.__init__': dpp_init, FD + '.sample_exact': dpp_sample})
    def items(self, ctx, A, what):
        """the axis lists the items with a positive count"""
        g = ctx.ghost; n, cnt = g['n'], g['cnt']
        ok = A.mask is not None and cnt is not None
        ctx.check('%s: distinct items of the intermediate sample' % what, ok)
        if not ok: raise PathEnd()
        ctx.check('%s: one per distinct item' % what, to_int(A.n) == n)
        ctx.check('%s: the items with a positive count' % what, All(lambda i: z3.Implies(rng_in((i, n)), A.mask(i) == (cnt(i) > 0))))
        return A.mask
    def v(self, ctx, i): return ctx.ghost['root'](i)
    def roots(self, ctx, i):
        v, w = self.v(ctx, i), self.w(ctx, i)
        ctx.assume([v > 0, v * v == w])
    def check_sample(self, ctx, S):
        g = ctx.ghost; n = g['n']
        ok = isinstance(S, (Arr, Lst)) and g['out'] is not None
        ctx.check('a sample is returned', ok)
        if not ok: raise PathEnd()
        if isinstance(S, Lst) and getattr(S, 'masked', None): A, s = S.masked[:2]
        else: S = lib.to_arr(ctx, S); A, s = S.axes[0], S.snap()
        try: s(fresh('probe', I)); items = True
        except Unsupported: items = False          # positions among the distinct items
        ctx.check('the sample lists items, not positions', items)
        if not items: raise PathEnd()
        ctx.check('the sample lists items', A.mask is not None)
        if A.mask is None: raise PathEnd()
        ctx.check('the sample is the downsampled one', [to_int(A.n) == n, All(lambda i: z3.Implies(rng_in((i, n)), A.mask(i) == g['out'](i)))])
        ctx.check('items of the data set', All(lambda i: z3.Implies(z3.And(rng_in((i, n)), A.mask(i)), s(i) == i)))

class VfxLoop(Loop):
    """counts of t ~ Poisson(q e^(s/q)) items drawn from l / s; D^2 = s c / (q l); log acceptance z + log det - logdet_I_A - t s / q"""
    target, title = IM + ':vfx_sampling_do_sampling_loop', 'vfx rejection'
    assumes = LAW + ('t ~ Poisson(q e^(s/q)) items of law l/s: counts independent Poisson(e^(s/q) q l_i / s)', 'the acceptance probability is at most 1 (VfxInfo; above 1.1 the code raises ValueError)')
    def setup(self, ctx):
        OPT['exp'] = True
        n, d = z3.Ints('n d'); al, ld, q, s, z = z3.Reals('alpha_star logdet_I_A q s z')
        ctx.assume([n >= 1, d >= 1, al > 0, q > 0, s > 0])
        X, x = data(ctx, 'x', n, d); L = Likelihood()
        l, lf = vector(ctx, 'l', n)
        ctx.assume(mk_sum(n, lambda i: lf(i)) == s)
        ctx.assume(All(lambda i: z3.Implies(rng_in((i, n)), lf(i) >= 0)))
        info = Obj(NTClass('_IntermediateSampleInfo', VFX), dict(alpha_star=al, logdet_I_A=ld, q=q, s=s, z=z, rls_estimate=l, rej_to_first_sample=z3.Int('rej0'))); info.ro = True
        rng = Rng(); m = z3.Int('max_iter')
        ctx.ghost.update(n=n, x=x, lik=L, alpha=al, q=q, s=s, z=z, ld=ld, l=lf, rng=rng, root=fresh_fn('root', I, R))
        self.new_round(ctx)
        return [X, L, info, rng], dict(max_iter=m, verbose=z3.Bool('verbose'))
    def w(self, ctx, i):
        g = ctx.ghost; return g['s'] * z3.ToReal(g['cnt'](i)) / (g['q'] * g['l'](i))
    def threshold(self, ctx):
        g = ctx.ghost
        return g['z'] + g['det'] - g['ld'] - z3.ToReal(g['t']) * g['s'] / g['q']
    def on_draw(self, ctx, d):
        g = ctx.ghost
        if d.method == 'u': return self.on_uniform(ctx, d)
        if d.method == 'poisson':
            lam, size = lib.arg(d.args, d.kw, 0, 'lam', 1), lib.arg(d.args, d.kw, 1, 'size')
            ctx.check('one size per round', g['t'] is None)
            ctx.check('size of the intermediate sample: Poisson(q e^(s/q))', size is None and lib.is_scalar(lam) and to_real(lam) == g['q'] * EXP(g['s'] / g['q']))
            g['t'] = t = fresh('t', I); ctx.assume(t >= 0)
            return t
        if d.method == 'choice':
            a, size, rep, p = (lib.arg(d.args, d.kw, i, nm, df) for i, (nm, df) in enumerate((('a', None), ('size', None), ('replace', True), ('p', None))))
            ctx.check('items drawn independently, as many as the size', rep is True and g['t'] is not None and g['cnt'] is None and lib.is_scalar(size) and to_int(size) == g['t'])
            ctx.check('items of the data set', lib.is_scalar(a) and to_int(a) == g['n'])
            p = lib.to_arr(ctx, p) if p is not None else None
            ok = p is not None and p.ndim == 1 and p.axes[0].mask is None
            ctx.check('a probability per item', ok)
            if not ok: raise PathEnd()
            ps = p.snap()
            ctx.check('a probability per item', to_int(p.axes[0].n) == g['n'])
            ctx.check('item i is drawn with probability l_i / s', All(lambda i: z3.Implies(rng_in((i, g['n'])), ps(i) == g['l'](i) / g['s'])))
            c = fresh_fn('cnt', I, I); f = fresh_fn('sigma', I, I)
            ctx.assume(All(lambda i: z3.And(c(i) >= 0, z3.Implies(c(i) > 0, z3.And(g['l'](i) > 0, g['t'] > 0)))))
            g['cnt'] = c; g['sigma'] = lib.new(ctx, [g['t']], I, lambda j: f(j)); g['sigma'].ro = True
            return g['sigma']
    def unique(ctx, args, kw):
        g = ctx.ghost
        if len(args) != 1 or args[0] is not g.get('sigma'): raise Unsupported('unique of %r' % (args[0],))
        n, c = g['n'], g['cnt']
        A = Axis(n, lambda i: c(i) > 0)
        v = Arr([A], I, lambda i: i)
        v.identity = True
        cs = lib.new(ctx, [A], I, lambda i: c(i))
        rc = kw.get('return_counts', False)
        return (v, cs) if rc is True else v
    externals = dict(Loop.externals, **{'numpy.unique': unique})
    def on_return(self, ctx, v):
        ok = isinstance(v, tuple) and len(v) == 2
        ctx.check('sample and number of rejections', ok)
        if not ok: raise PathEnd()
        self.check_sample(ctx, v[0])

class AlphaLoop(Loop):
    """counts Poisson(r e^(1/r) b_i) of the bounds b, thinned to Poisson(r e^(1/r) l_i) where b is replaced by the estimate l; D^2 = c / (r l); log acceptance deff + log det - log det(I + alpha L_hat) - t / r"""
    target, title = IM + ':alpha_dpp_sampling_do_sampling_loop', 'alpha rejection'
    assumes = LAW + ('thinning: Binomial(Poisson(m), p) is Poisson(m p)', 'the acceptance probability is at most 1 (AlphaInfo; above 1 the code raises ValueError)')
    roles = dict(rls_bound=lambda v: isinstance(v, Arr) and v.ndim == 1 and v.sort.eq(R) and not v.ro, rls_bound_valid=lambda v: isinstance(v, Arr) and v.ndim == 1 and v.sort.eq(B) and not v.ro)
    class Rounds2(Rounds):
        def inv(self, ls):
            g, c = ls.ctx.ghost, ls.ctx
            b, v = lib.elem_snap(c, ls.v('rls_bound')), lib.elem_snap(c, ls.v('rls_bound_valid'))
            return [('a bound is the estimate or the bound given', All(lambda i: z3.Implies(rng_in((i, g['n'])), z3.If(to_bool(v(i)), b(i) == z3.If(g['valid0'](i), g['b0'](i), g['tau'](i)), b(i) == g['b0'](i))))),
                    ('valid bounds stay valid', All(lambda i: z3.Implies(z3.And(rng_in((i, g['n'])), g['valid0'](i)), to_bool(v(i)))))]
        def begin(self, ls):
            Rounds.begin(self, ls)
            c, g = ls.ctx, ls.ctx.ghost
            g['b'] = lib.elem_snap(c, ls.v('rls_bound')); g['bv'] = lib.elem_snap(c, ls.v('rls_bound_valid'))
    loops = (Rounds2(),)
    def setup(self, ctx):
        OPT['exp'] = True
        n, d = z3.Ints('n d'); al, r = z3.Reals('alpha_hat r')
        ctx.assume([n >= 1, d >= 1, al > 0, r > 0])
        X, x = data(ctx, 'x', n, d); L = Likelihood()
        b, bf = vector(ctx, 'b0', n); v, vf = vector(ctx, 'valid0', n, sort=B)
        tau = z3.Function('tau', I, R)
        # precondition: positive bounds (bounds of items with L_ii = 0 are never drawn)
        ctx.assume(All(lambda i: z3.Implies(rng_in((i, n)), bf(i) >= 0)))
        m = z3.Int('m'); ctx.assume(m >= 1)
        ev, e = vector(ctx, 'e', m); U, _ = matrix(ctx, 'U', m, m)
        ctx.assume(All(lambda a: z3.Implies(rng_in((a, m)), e(a) > 0)))
        D = Opaque('dictionary')
        at = dict(alpha_hat=al, alpha_min=z3.Real('alpha_min'), alpha_max=z3.Real('alpha_max'), k=z3.Int('k'), eigvecs_L_hat=U, eigvals_L_hat=ev, deff_alpha_L_hat=z3.Real('deff'), rls_upper_bound=b, rls_upper_bound_valid=v,
                  r=r, dict_alphadpp=D, diag_L=vector(ctx, 'diag_L', n)[0], rej_to_first_sample=z3.Int('rej0'), trial_to_first_sample=z3.Int('trial0'), alpha_switches=z3.Int('switches'))
        info = Obj(NTClass('_IntermediateSampleInfoAlphaRescale', ALPHA), at); info.ro = True
        rng = Rng()
        ctx.ghost.update(n=n, x=x, lik=L, alpha=al, r=r, info=info, rng=rng, root=fresh_fn('root', I, R), b0=bf, valid0=vf, tau=tau, e=e, m=m, draw=None, D=D, U=U, ev=ev)
        self.new_round(ctx)
        return [X, L, info, rng], dict(max_iter=z3.Int('max_iter'), verbose=z3.Bool('verbose'))
    def on_count(self, ctx, c, n, mask):
        ctx.assume(All(lambda i: z3.Implies(z3.And(rng_in((i, n)), mask(i)), c >= 1)))
    def new_round(self, ctx): Loop.new_round(self, ctx); ctx.ghost.update(draw=None, thin=None, est=None)
    def leverage(self, ctx, i):
        """mean of the count of item i is r e^(1/r) times this"""
        g = ctx.ghost
        return z3.If(z3.Or(g['bv'](i), g['draw'](i) == 0), g['b'](i), g['tau'](i))
    def w(self, ctx, i):
        g = ctx.ghost; return z3.ToReal(g['cnt'](i)) / (g['r'] * z3.If(to_bool(g['bv'](i)), g['b'](i), g['tau'](i)))
    def threshold(self, ctx):
        g = ctx.ghost; e, m, al = g['e'], g['m'], g['alpha']
        return mk_sum(m, lambda a: 1 - 1 / (al * e(a) + 1)) + g['det'] - mk_sum(m, lambda a: LOG(1 + al * e(a))) - g["t"] / g['r']
    def estimate(ctx, loc):
        """contract of estimate_rls_from_weighted_dict_eigendecomp"""
        g = ctx.ghost; X = loc['X_to_estimate']
        ctx.check('estimates of the current rescaling', loc['dict_alphadpp'] is g['D'] and loc['eval_L'] is g['lik'] and loc['eigvec'] is g['U'] and loc['eigvals'] is g['ev'] and isinstance(X, Points))
        ctx.check('estimates of the current rescaling: alpha', to_real(loc['alpha_hat']) == g['alpha'])
        if not isinstance(X, Points): raise PathEnd()
        if ctx.decide(2, 'negative estimate'): raise PyRaise('ValueError')
        ids = X.ids; f = ids.snap()
        ctx.check('estimates of data points', All(lambda i: z3.Implies(ids.axes[0].dom(i), f(i) == g['x'](i))))
        ctx.assume(All(lambda i: g['tau'](i) >= 0))
        g['est'] = ids.axes[0]
        return lib.new(ctx, [ids.axes[0]], R, lambda i: g['tau'](i))
    uses = dict(Loop.uses, **{IM + ':estimate_rls_from_weighted_dict_eigendecomp': estimate})
    def on_draw(self, ctx, d):
        g = ctx.ghost; n = g['n']
        if d.method == 'u': return self.on_uniform(ctx, d)
        if d.method == 'poisson':
            lam, size = lib.arg(d.args, d.kw, 0, 'lam', 1), lib.arg(d.args, d.kw, 1, 'size')
            lam = lib.to_arr(ctx, lam); ok = lam.ndim == 1 and lam.axes[0].mask is None and (size is None or z3.eq(simp(to_int(size)), n)) and g['draw'] is None
            ctx.check('a count per item', ok)
            if not ok: raise PathEnd()
            f = lam.snap(); b = g['b']
            ctx.check('a count per item', to_int(lam.axes[0].n) == n)
            ctx.check('count i follows Poisson(r e^(1/r) b_i)', All(lambda i: z3.Implies(rng_in((i, n)), f(i) == g['r'] * EXP(1 / g['r']) * b(i))))
            c = fresh_fn('draw', I, I)
            ctx.assume(All(lambda i: z3.Implies(rng_in((i, n)), z3.And(c(i) >= 0, z3.Implies(c(i) > 0, b(i) > 0)))))
            g['draw'] = c; g['cnt'] = c
            return lib.new(ctx, [n], I, lambda i: c(i))
        if d.method == 'binomial':
            k, p, size = (lib.arg(d.args, d.kw, i, nm) for i, nm in enumerate(('n', 'p', 'size')))
            k, p = lib.to_arr(ctx, k), lib.to_arr(ctx, p)
            ok = k.ndim == p.ndim == 1 and k.axes[0].mask is not None and p.axes[0].mask is not None and size is None and g['draw'] is not None and g['thin'] is None
            ctx.check('one thinning of the items whose bound is refined', ok)
            if not ok: raise PathEnd()
            A, P, ks, ps = k.axes[0], p.axes[0], k.snap(), p.snap()
            todo = lambda i: z3.And(g['draw'](i) > 0, z3.Not(to_bool(g['bv'](i))))
            ctx.check('thinned items', [to_int(A.n) == n, to_int(P.n) == n, All(lambda i: z3.Implies(rng_in((i, n)), z3.And(A.mask(i) == todo(i), P.mask(i) == todo(i))))])
            i = fresh('i', I); ctx.assume(rng_in((i, n)))
            ctx.check('counts thinned', z3.Implies(todo(i), ks(i) == g['draw'](i)))
            ctx.check('a count is kept with probability l_i / b_i', z3.Implies(todo(i), ps(i) * g['b'](i) == g['tau'](i)))
            ctx.check('probabilities of the thinning in [0, 1]', z3.Implies(todo(i), z3.And(ps(i) >= 0, ps(i) <= 1)))
            f = fresh_fn('thin', I, I)
            ctx.assume(All(lambda i: z3.And(f(i) >= 0, f(i) <= g['draw'](i), z3.Implies(f(i) > 0, g['tau'](i) > 0))))
            g['thin'] = f
            g['cnt'] = lambda i: z3.If(todo(i), f(i), g['draw'](i))
            return lib.new(ctx, [A], I, lambda i: f(i))
    def decided(self, ctx, acc):
        g = ctx.ghost
        if g['draw'] is not None: g['t'] = mk_sum(g["n"], lambda i, c=g["cnt"]: z3.ToReal(c(i)))
        Loop.decided(self, ctx, acc)
        todo = lambda i: z3.And(g['draw'](i) > 0, z3.Not(to_bool(g['bv'](i))))
        if g['thin'] is None: ctx.check('the bounds of the items drawn are refined', All(lambda i: z3.Implies(rng_in((i, g['n'])), z3.Not(todo(i)))))
    def on_return(self, ctx, v):
        g = ctx.ghost
        ok = isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], Obj)
        ctx.check('sample, number of rejections and information', ok)
        if not ok: raise PathEnd()
        self.check_sample(ctx, v[0])
        a, b = v[2].attrs, g['info'].attrs
        for k in ALPHA:
            if k not in ('rls_upper_bound', 'rls_upper_bound_valid'): ctx.check('information kept: %s' % k, k in a and a[k] is b[k])
        n = g['n']
        nb, nv = lib.to_arr(ctx, a['rls_upper_bound']), lib.to_arr(ctx, a['rls_upper_bound_valid'])
        f, h = nb.snap(), nv.snap()
        ctx.check('bounds recorded', [to_int(nb.axes[0].n) == n, to_int(nv.axes[0].n) == n])
        ctx.check('a bound recorded is the estimate of the current rescaling, or the bound given', All(lambda i: z3.Implies(rng_in((i, n)), z3.If(to_bool(h(i)), f(i) == z3.If(g['valid0'](i), g['b0'](i), g['tau'](i)), f(i) == g['b0'](i)))))


class EstEmbedded(FnContract):
    """estimate_rls_from_embedded_points: alpha (L_ii - L_hat_ii) + b_i^T M^-1 b_i, the inverse being the spectral one of the eigendecomposition given"""
    prop, target, title = 'C09', IM + ':estimate_rls_from_embedded_points', 'marginal estimate (vfx)'
    uses = dict(FnContract.uses, **{'dppy.utils:stable_invert_root': invroot})
    assumes = ('directions dropped by stable_filter (relative eigenvalue below n eps) are numerically null',)
    must_reach = ('pre', 'return', 'raise:ValueError')
    def setup(self, ctx):
        n, m = z3.Ints('n m'); al = z3.Real('alpha_star'); ctx.assume([n >= 1, m >= 1, al > 0])
        (U, u), (E, e), (Bt, b), (D, dl), (H, dh) = matrix(ctx, 'U', m, m), vector(ctx, 'e', m), matrix(ctx, 'B', m, n), vector(ctx, 'diag_L', n), vector(ctx, 'diag_L_hat', n)
        ctx.ghost.update(n=n, m=m, u=u, e=e, b=b, dl=dl, dh=dh, al=al)
        return [U, E, Bt, D, H, al], {}
    def on_raise(self, ctx, e): ctx.check('only ValueError is raised', e.kind == 'ValueError', kind='exception')
    def on_return(self, ctx, v):
        g = ctx.ghost; n, m, u, b, r, keep = [g[k] for k in ('n', 'm', 'u', 'b', 'r', 'keep')]
        s = per_point(ctx, v, n)
        i = fresh('i', I); ctx.assume(rng_in((i, n)))
        w = lambda a: mk_sum(m, lambda d: u(d, a) * b(d, i))
        ctx.check('estimate', s(i) == g['al'] * (g['dl'](i) - g['dh'](i)) + mk_sum(m, lambda a: z3.If(keep(a), r(a) * r(a) * w(a) * w(a), z3.RealVal(0))))
        ctx.check('estimates are nonnegative', s(i) >= 0)

def per_point(ctx, v, n):
    v = lib.to_arr(ctx, v)
    ctx.check('a vector of values', v.ndim == 1 and v.axes[0].mask is None)
    if v.ndim != 1: raise PathEnd()
    ctx.check('length', to_int(v.axes[0].n) == n)
    return v.snap()

class EstWeighted(FnContract):
    """estimate_rls_from_weighted_dict_eigendecomp: alpha (L_ii - alpha sum_a (sum_d U_da L_di / sqrt(p_d))^2 / (alpha e_a + 1))"""
    prop, target, title = 'C09', IM + ':estimate_rls_from_weighted_dict_eigendecomp', 'marginal estimate (alpha)'
    uses = dict(FnContract.uses, **{'dppy.utils:evaluate_L_diagonal': diagonal})
    must_reach = ('pre', 'return', 'raise:ValueError')
    def setup(self, ctx):
        n, d, m2 = z3.Ints('n d m2'); al = z3.Real('alpha_hat'); ctx.assume([n >= 1, d >= 1, m2 >= 1, al > 0])
        X, x = data(ctx, 'x', n, d); D, m, xd, p = dictionary(ctx, 'D'); L = Likelihood()
        (U, u), (E, e) = matrix(ctx, 'U', m, m2), vector(ctx, 'e', m2)
        ctx.assume(All(lambda a: z3.Implies(rng_in((a, m2)), e(a) > 0)))
        ctx.ghost.update(n=n, m=m, m2=m2, x=x, xd=xd, p=p, u=u, e=e, lik=L, al=al)
        return [X, L, D, U, E, al], {}
    def on_raise(self, ctx, e): ctx.check('only ValueError is raised', e.kind == 'ValueError', kind='exception')
    def on_return(self, ctx, v):
        g = ctx.ghost; n, m, m2, x, xd, p, u, e, al = [g[k] for k in ('n', 'm', 'm2', 'x', 'xd', 'p', 'u', 'e', 'al')]
        s = per_point(ctx, v, n)
        i = fresh('i', I); ctx.assume(rng_in((i, n)))
        w = lambda a: mk_sum(m, lambda d: u(d, a) * LK(xd(d), x(i)) / SQRT(p(d)))
        ctx.check('estimate', s(i) == al * (LK(x(i), x(i)) - al * mk_sum(m2, lambda a: w(a) * w(a) / (al * e(a) + 1))))
        ctx.check('estimates are nonnegative', s(i) >= 0)

class Constants(FnContract):
    """shared part of the pre-computations"""
    prop = 'C09'
    scenarios = ('natural size', 'expected size')
    must_reach = ('pre', 'return', 'raise:ValueError')
    over = None
    def bless(ctx, loc):
        """contract of bless"""
        g = ctx.ghost
        ctx.check('BLESS on the data set given', loc['X_data'] is g['X'] and loc['eval_L'] is g['lik'] and loc['random_state'] is g['rng'])
        ctx.check('BLESS at regularisation 1', to_real(loc['lam_final']) == 1)
        ctx.check('oversampling of BLESS', to_real(loc['rls_oversample_param']) == g['qb'])
        return ctx.contract.blessed(ctx, z3.RealVal(1))
    def blessed(self, ctx, lam):
        g = ctx.ghost
        ctx.check('one run of BLESS', g['bless'] is None)
        if ctx.decide(2, 'bless refused'): raise PyRaise('ValueError')
        g['bless'] = dictionary(ctx, 'D0', lam=lam, d=g['d'])[0]
        return g['bless']
    def size(ctx, loc):
        """contract of bless_size"""
        g = ctx.ghost
        ctx.check('BLESS on the data set given', loc['X_data'] is g['X'] and loc['eval_L'] is g['lik'] and loc['random_state'] is g['rng'])
        ctx.check('BLESS for the size given', g['size'] is not None and to_real(loc['size_final']) == to_real(g['size']))
        ctx.check('oversampling of BLESS', to_real(loc['rls_oversample_param']) == g['qb'])
        mx, mn = fresh('lam_max', R), fresh('lam_min', R); ctx.assume([mn > 0, mx >= mn])
        D = ctx.contract.blessed(ctx, mn)
        g['bounds'] = (mx, mn)
        return (mx, mn, D)
    def reduce(ctx, loc):
        """contract of reduce_lambda"""
        g = ctx.ghost; D = loc['intermediate_dict_bless']
        ctx.check('reduction of the dictionary of BLESS', D is g['bless'] and g['bless'] is not None and loc['X_data'] is g['X'] and loc['eval_L'] is g['lik'] and loc['rng'] is g['rng'])
        if g['bless'] is None: raise PathEnd()
        ctx.check('reduction at the same regularisation', to_real(loc['lam_new']) == to_real(D.attrs['lam']))
        ctx.check('oversampling of the reduction', to_real(loc['rls_oversample_parameter']) == g['qr'])
        if ctx.decide(2, 'reduction refused'): raise PyRaise('ValueError')
        o, m, xd, p = dictionary(ctx, 'DA', lam=D.attrs['lam'], d=g['d'])
        g.update(dict=o, m=m, xd=xd, p=p)
        return o
    def brentq(ctx, args, kw):
        """contract of scipy.optimize.brentq: a root of the function in the bracket, when it says it converged"""
        g = ctx.ghost
        f, a, b = (lib.arg(args, kw, i, nm) for i, nm in enumerate(('f', 'a', 'b')))
        ctx.check('one root is sought', g.get('alpha') is None)
        ctx.check('full output', kw.get('full_output') is True)
        x = fresh('root', R); cv = fresh('converged', B); g['alpha'] = x
        a, b = to_real(a), to_real(b)
        ctx.check('bracket of positive numbers', z3.And(a > 0, b > a))
        g['bracket'] = (a, b)
        # outside a bracket with a change of sign brentq raises ValueError
        if ctx.decide(2, 'no change of sign'): raise PyRaise('ValueError')
        ctx.assume(z3.And(x >= a, x <= b))
        v = to_real(ctx.call(f, [x], {}))
        ctx.assume(z3.Implies(cv, v == 0)); g['conv'] = cv
        o = Obj(NTClass('RootResults', ['root', 'iterations', 'function_calls', 'converged', 'flag']), dict(root=x, iterations=fresh('it', I), function_calls=fresh('fc', I), converged=cv, flag=Opaque('flag')))
        o.ro = True
        return (x, o)
    def eigh(ctx, args, kw):
        g = ctx.ghost
        a = lib.to_arr(ctx, args[0])
        if kw or len(args) != 1 or a.ndim != 2: raise Unsupported('options of eigh')
        ctx.check('one eigendecomposition', g['eig'] is None)
        s = a.snap(); A = a.axes[0]
        e, V = fresh_fn('ev', I, R), fresh_fn('V', I, I, R)
        g['eig'] = (A, a.axes[1], s, e, V)
        return (lib.new(ctx, [A], R, lambda k: e(k)), lib.new(ctx, [A, A], R, lambda i, k: V(i, k)))
    externals = {'numpy.linalg.svd': svd, 'scipy.linalg.svd': svd, 'scipy.optimize.brentq': brentq, 'numpy.linalg.eigh': eigh, 'scipy.linalg.eigh': eigh}
    uses = dict(FnContract.uses, **{'dppy.utils:evaluate_L_diagonal': diagonal, 'dppy.bless:bless': bless, 'dppy.bless:bless_size': size, 'dppy.bless:reduce_lambda': reduce, 'dppy.utils:stable_invert_root': invroot, 'dppy.utils:stable_filter': stable})
    assumes = ('scipy.optimize.brentq returns an exact root of the function in the bracket when it reports convergence, and raises ValueError without a change of sign',
               'bless, bless_size, reduce_lambda: their contracts of C10', 'numpy.linalg.svd and eigh return exact decompositions')
    def setup(self, ctx):
        OPT['sq'] = True
        n, d = z3.Ints('n d'); qb, qr = z3.Reals('rls_oversample_bless rls_oversample')
        ctx.assume([n >= 1, d >= 1, qb > 0, qr > 0])
        X, x = data(ctx, 'x', n, d); L = Likelihood(); r = Rng()
        ctx.ghost.update(n=n, d=d, X=X, x=x, lik=L, rng=r, qb=qb, qr=qr, bless=None, eig=None, size=None)
        kw = {self.over: qr, 'rls_oversample_bless': qb, 'nb_iter_bless': z3.Int('nb_iter'), 'verbose': z3.Bool('verbose')}
        if self.scenario == 'expected size':
            k = z3.Real('size'); ctx.assume(k > 0)
            ctx.ghost['size'] = kw['desired_expected_size'] = k
        return [X, L, r], kw
    def witness(self, ctx, A): return None
    def on_raise(self, ctx, e): ctx.check('only ValueError is raised', e.kind == 'ValueError', kind='exception')
    def info(self, ctx, v, fields):
        ok = isinstance(v, Obj) and set(v.attrs) == set(fields)
        ctx.check('information is returned', ok)
        if not ok: raise PathEnd()
        g = ctx.ghost
        ok = g['eig'] is not None and g.get('dict') is not None
        ctx.check('a dictionary and an eigendecomposition', ok)
        if not ok: raise PathEnd()
        return v.attrs

class VfxInfo(Constants):
    """alpha_star, marginal estimates, s, z, logdet of the Nystrom approximation"""
    target, title, over = IM + ':vfx_sampling_precompute_constants', 'vfx constants', 'rls_oversample_dppvfx'
    def est(ctx, loc):
        """contract of estimate_rls_from_embedded_points"""
        g = ctx.ghost; n = g['n']
        U, e, Bt = lib.to_arr(ctx, loc['eigvec']), lib.to_arr(ctx, loc['eigvals']), lib.to_arr(ctx, loc['B_bar_T'])
        ctx.check('estimates once', g.get('l') is None and g['eig'] is not None)
        if g['eig'] is None: raise PathEnd()
        A, A2, M, ev, V = g['eig']
        al = to_real(loc['alpha_star']); g['al'] = al
        ok = U.ndim == 2 and e.ndim == 1 and Bt.ndim == 2 and U.axes[1].mask is not None and e.axes[0].mask is not None and Bt.axes[0].mask is not None
        ctx.check('directions of the dictionary', ok)
        if not ok: raise PathEnd()
        us, es, bs = U.snap(), e.snap(), Bt.snap()
        k = A.mask
        dom = lambda a: z3.And(rng_in((a, g['m'])), k(a))
        for w, ax in (('columns', U.axes[1]), ('eigenvalues', e.axes[0]), ('embedding', Bt.axes[0])):
            ctx.check('%s of the decomposition' % w, All(lambda a, ax=ax: z3.Implies(rng_in((a, g['m'])), ax.mask(a) == k(a))))
        ctx.check('alpha > 0', al > 0)
        ctx.check('eigenvectors of the decomposition', All(lambda i, a: z3.Implies(z3.And(dom(i), dom(a)), us(i, a) == V(i, a)), 2))
        ctx.check('eigenvalues of B B^T + I / alpha', All(lambda a: z3.Implies(dom(a), es(a) == ev(a) - 1 + 1 / al)))
        a, i = fresh('a', I), fresh('i', I); ctx.assume([dom(a), rng_in((i, n))])
        ctx.check('embedded points', bs(a, i) == self_b(ctx, a, i))
        x = g['x']
        dl, dh = lib.to_arr(ctx, loc['diag_L']).snap(), lib.to_arr(ctx, loc['diag_L_hat']).snap()
        ctx.check('diagonal of L', dl(i) == LK(x(i), x(i)))
        ctx.check('diagonal of the Nystrom approximation', dh(i) == nys(ctx, i))
        if ctx.decide(2, 'negative estimate'): raise PyRaise('ValueError')
        l = fresh_fn('l', I, R); g['l'] = l
        ctx.assume(All(lambda i: z3.Implies(rng_in((i, n)), l(i) >= 0)))
        return lib.new(ctx, [n], R, lambda i: l(i))
    uses = dict(Constants.uses, **{IM + ':estimate_rls_from_embedded_points': est})
    def on_return(self, ctx, v):
        g = ctx.ghost; at = self.info(ctx, v, VFX); n, m = g['n'], g['m']
        ok = g.get('svd') is not None and g.get('l') is not None
        ctx.check('the dictionary is embedded and the marginals estimated', ok)
        if not ok: raise PathEnd()
        N, S0 = g['svd'][:2]; xd, x = g['xd'], g['x']
        ctx.check('the matrix embedded is that of the dictionary', [to_int(N) == m, All(lambda i, j: z3.Implies(rng_in((i, m), (j, m)), S0(i, j) == LK(xd(i), xd(j))), 2)])
        A, A2, M, ev, V = g['eig']; k = g['keep']
        ctx.check('order of the matrix decomposed', [to_int(A.n) == m, to_int(A2.n) == m, All(lambda a: z3.Implies(rng_in((a, m)), z3.And(A.mask(a) == k(a), A2.mask(a) == k(a))))])
        a, b = fresh('a', I), fresh('b', I)
        ctx.assume([rng_in((a, m), (b, m)), k(a), k(b)])
        ctx.check('the matrix decomposed is B B^T + I', M(a, b) == mk_sum(n, lambda i: self_b(ctx, a, i) * self_b(ctx, b, i)) + z3.If(a == b, z3.RealVal(1), z3.RealVal(0)))
        al = to_real(at['alpha_star'])
        e = lambda a: ev(a) - 1 + 1 / al
        dsum = lambda f: mk_sum(m, lambda a: z3.If(k(a), f(a), z3.RealVal(0)))
        ctx.check('alpha_star in (0, 1]', z3.And(al > 0, al <= 1))
        if g['size'] is None: ctx.check('alpha_star = 1 without expected size', al == 1)
        else:
            ctx.check('alpha_star is the root found', g.get('alpha') is not None and al == g['alpha'])
            if g.get('alpha') is not None:
                ctx.check('the search converged', g['conv'])
                ctx.check('the expected size is the one requested', al * (mk_sum(n, lambda i: LK(x(i), x(i))) - mk_sum(n, lambda i: nys(ctx, i))) + dsum(lambda a: (ev(a) - 1) / e(a)) == to_real(g['size']))
        r = lib.to_arr(ctx, at['rls_estimate']); rs = per_point(ctx, r, n)
        ctx.check('estimates recorded', All(lambda i: z3.Implies(rng_in((i, n)), rs(i) == g['l'](i))))
        ctx.check('estimates of the rescaling recorded', g['al'] == al)
        ctx.check('s is the sum of the estimates', to_real(at['s']) == mk_sum(n, lambda i: g['l'](i)))
        ctx.check('z', to_real(at['z']) == dsum(lambda a: (e(a) - 1 / al) / e(a)))
        ctx.check('log determinant', to_real(at['logdet_I_A']) == dsum(lambda a: LOG(al * e(a))))
        ctx.check('counters', to_int(at['rej_to_first_sample']) == 0)

def self_b(ctx, a, i):
    g = ctx.ghost; U = g['svd'][2]
    return g['r'](a) * mk_sum(g['m'], lambda d: U(d, a) * LK(g['xd'](d), g['x'](i)))
def nys(ctx, i):
    g = ctx.ghost
    return mk_sum(g['m'], lambda a: z3.If(g['keep'](a), self_b(ctx, a, i) * self_b(ctx, a, i), z3.RealVal(0)))

class AlphaInfo(Constants):
    """alpha_hat, eigendecomposition of the weighted dictionary, bounds alpha_hat L_ii not yet refined"""
    target, title, over = IM + ':alpha_dpp_sampling_precompute_constants', 'alpha constants', 'rls_oversample_alphadpp'
    def est(ctx, loc):
        """contract of estimate_rls_from_weighted_dict_eigendecomp"""
        g = ctx.ghost; X = loc['X_to_estimate']
        ctx.check('estimates of the dictionary', loc['dict_alphadpp'] is g['dict'] and loc['eval_L'] is g['lik'] and isinstance(X, Points))
        if not isinstance(X, Points): raise PathEnd()
        if ctx.decide(2, 'negative estimate'): raise PyRaise('ValueError')
        t = fresh_fn('tau', I, R)
        ctx.assume(All(lambda i: t(i) >= 0))
        return lib.new(ctx, [X.axis()], R, lambda i: t(i))
    uses = dict(Constants.uses, **{IM + ':estimate_rls_from_weighted_dict_eigendecomp': est})
    def on_return(self, ctx, v):
        g = ctx.ghost; at = self.info(ctx, v, ALPHA); n, m, xd, p, x = [g[k] for k in ('n', 'm', 'xd', 'p', 'x')]
        A, A2, M, ev, V = g['eig']; k = g['keep']
        a, b = fresh('a', I), fresh('b', I); ctx.assume(rng_in((a, m), (b, m)))
        ctx.check('the matrix decomposed is W L_DD W, W = diag(1 / sqrt(p))', [A.mask is None and A2.mask is None, to_int(A.n) == m, to_int(A2.n) == m, M(a, b) == LK(xd(a), xd(b)) / (SQRT(p(a)) * SQRT(p(b)))])
        e, U = lib.to_arr(ctx, at['eigvals_L_hat']), lib.to_arr(ctx, at['eigvecs_L_hat'])
        ok = e.ndim == 1 and U.ndim == 2 and e.axes[0].mask is not None and U.axes[1].mask is not None and U.axes[0].mask is None
        ctx.check('eigendecomposition recorded', ok)
        if not ok: raise PathEnd()
        es, us = e.snap(), U.snap()
        ctx.check('eigendecomposition recorded', [to_int(e.axes[0].n) == m, to_int(U.axes[0].n) == m, to_int(U.axes[1].n) == m])
        ctx.check('directions recorded', [z3.And(e.axes[0].mask(a) == k(a), U.axes[1].mask(a) == k(a))])
        ctx.check('eigenvalues and eigenvectors recorded', z3.Implies(k(a), z3.And(es(a) == ev(a), us(b, a) == V(b, a))))
        al = to_real(at['alpha_hat'])
        deff = mk_sum(m, lambda a: z3.If(k(a), 1 - 1 / (al * ev(a) + 1), z3.RealVal(0)))
        ctx.check('alpha_hat in (0, 1]', z3.And(al > 0, al <= 1))
        ctx.check('effective dimension', to_real(at['deff_alpha_L_hat']) == deff)
        if g['size'] is None:
            ctx.check('alpha_hat = 1 without expected size', al == 1)
            ctx.check('interval of rescalings', z3.And(to_real(at['alpha_min']) == al, to_real(at['alpha_max']) == al))
            ctx.check('no size recorded', to_int(at['k']) == -1)
        else:
            ctx.check('alpha_hat is the root found', g.get('alpha') is not None and al == g['alpha'])
            if g.get('alpha') is not None:
                ctx.check('the search converged', g['conv'])
                ctx.check('the expected size is the one requested', deff == to_real(g['size']))
            mx, mn = g['bounds']
            ctx.check('interval of rescalings', z3.And(to_real(at['alpha_min']) * mx == 1, to_real(at['alpha_max']) * mn == 1))
            ctx.check('size recorded', at['k'] is g['size'])
        bd, va, dl = per_point(ctx, at['rls_upper_bound'], n), per_point(ctx, at['rls_upper_bound_valid'], n), per_point(ctx, at['diag_L'], n)
        i = fresh('i', I); ctx.assume(rng_in((i, n)))
        ctx.check('bounds alpha L_ii', bd(i) == al * LK(x(i), x(i)))
        ctx.check('bounds not yet refined', z3.Not(to_bool(va(i))))
        ctx.check('diagonal of L recorded', dl(i) == LK(x(i), x(i)))
        ctx.check('dictionary recorded', at['dict_alphadpp'] is g['dict'])
        ctx.check('counters', z3.And(to_int(at['rej_to_first_sample']) == 0, to_int(at['trial_to_first_sample']) == 0, to_int(at['alpha_switches']) == 0))


TAUA = z3.Function('TAUA', R, I, R)      # estimate of estimate_rls_from_weighted_dict_eigendecomp at a rescaling, by item

class Drawn:
    """a sample returned by a rejection loop: a list of items"""
    ro = True
    def __init__(self, size): self.size = size
    def v_len(self, ctx): return self.size
class Kept(Drawn):
    """a variable of the size rejection assigned in an earlier iteration, if found"""

class Wrap(FnContract):
    """calls of the pre-computation and of the rejection loop"""
    prop = 'C09'
    k = False
    scenarios = ('fresh', 'fresh, function given', 'fresh, expected size', 'cached')
    uses = FnContract.uses
    def setup(self, ctx):
        n, d = z3.Ints('n d'); ctx.assume([n >= 1, d >= 1])
        X, x = data(ctx, 'x', n, d); L = Likelihood(); r = Rng(); g = ctx.ghost
        qb, qr, qq = z3.Reals('rls_oversample_bless rls_oversample factor')
        mi = z3.Int('max_iter')
        kw = {self.over: qr, 'rls_oversample_bless': qb, 'max_iter': mi, 'verbose': z3.Bool('verbose'), 'random_state': r}
        QF = fresh_fn('qf', R, R)
        g.update(n=n, X=X, lik=L, rng=r, qb=qb, qr=qr, mi=mi, pre=None, runs=[], QF=None, size=None, want=None)
        if self.scenario == 'fresh, function given':
            def f(c, args, kw):
                if kw or len(args) != 1: raise Unsupported('arguments of the factor function')
                v = QF(to_real(args[0])); c.assume(v > 0); return v
            kw[self.func] = PyFn(f, self.func); g['QF'] = QF
        if self.scenario == 'fresh, expected size' and not self.k:
            kw['desired_expected_size'] = g['want'] = z3.Real('expected')
        a = [X, L]
        if self.k:
            k = z3.Int('size'); ctx.assume(k >= 1); g['size'] = g['want'] = k
            m = z3.Int('max_size'); g['max'] = m
            if self.scenario == 'fresh': g['max'] = z3.IntVal(100)
            else: kw['max_iter_size_rejection'] = m
        g['given'] = self.make(ctx, 'given') if 'cached' in self.scenario else None
        if g['given'] is not None: self.consistent(ctx, g['given'], ctx.assume)
        return ([g['size']] if self.k else []) + [g['given'], X, L], kw
    def precompute(ctx, loc):
        """contract of the pre-computation"""
        c, g = ctx.contract, ctx.ghost
        ctx.check('one pre-computation', g['pre'] is None)
        ctx.check('pre-computation on the data set given', loc['X_data'] is g['X'] and loc['eval_L'] is g['lik'] and loc['rng'] is g['rng'])
        ctx.check('oversampling of the pre-computation', z3.And(to_real(loc[c.over]) == g['qr'], to_real(loc['rls_oversample_bless']) == g['qb']))
        w = loc['desired_expected_size']
        ctx.check('expected size of the pre-computation', w is g['want'] if g['want'] is None or w is None else to_real(w) == to_real(g['want']))
        if ctx.decide(2, 'pre-computation refused'): raise PyRaise('ValueError')
        o = c.make(ctx, 'new', True)
        c.consistent(ctx, o, ctx.assume)
        g['pre'] = o
        return o
    def check_loop(self, ctx, loc):
        g = ctx.ghost
        info = loc['intermediate_sample_info']
        ctx.check('rejection loop on the data set given', loc['X_data'] is g['X'] and loc['eval_L'] is g['lik'] and loc['rng'] is g['rng'] and isinstance(info, Obj))
        ctx.check('rounds allowed', to_int(loc['max_iter']) == g['mi'])
        self.known(ctx, info)
        if ctx.decide(2, 'rounds exhausted'): raise PyRaise('ValueError')
        s = Drawn(fresh('length', I)); ctx.assume(s.size >= 0)
        g['runs'] = g['runs'] + [s]
        return s, info
    def source(self, ctx):
        """the information expected: the one given, or the one computed"""
        g = ctx.ghost
        return g['pre'] if g['pre'] is not None else g['given']
    def known(self, ctx, info):
        g = ctx.ghost; src = self.source(ctx)
        ctx.check('information computed or given', src is not None)
        if src is None or not isinstance(info, Obj): raise PathEnd()
        for f in self.fixed:
            a, b = info.attrs.get(f), src.attrs[f]
            ctx.check('information kept: %s' % f, a is b or a is not None and lib.is_scalar(a) and lib.is_scalar(b) and a == b)
        q = to_real(info.attrs[self.factor])
        if g['pre'] is None: ctx.check('factor of the information given', q == to_real(src.attrs[self.factor]))
        else:
            v = to_real(src.attrs[self.base])
            ctx.check('factor of the Poissonisation', q == (g['QF'](v) if g['QF'] is not None else self.default(v)))
        self.consistent(ctx, info, lambda e: ctx.check('information consistent with its rescaling', e))
    def consistent(self, ctx, o, say): pass
    def on_raise(self, ctx, e): ctx.check('only ValueError is raised', e.kind == 'ValueError', kind='exception')
    def on_return(self, ctx, v):
        g = ctx.ghost
        ok = isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], Obj)
        ctx.check('sample and information', ok)
        if not ok: raise PathEnd()
        self.returned(ctx, v[0])
        self.known(ctx, v[1])
        if g['given'] is None: ctx.check('information computed', g['pre'] is not None)
    def returned(self, ctx, s):
        ctx.check('the sample is the one of the only rejection loop', len(ctx.ghost['runs']) == 1 and s is ctx.ghost['runs'][0])

class VfxWrap(Wrap):
    """dpp_vfx_sampler: one rejection loop, with the information given or the one pre-computed, q = q_func(s)"""
    target, title = ES + ':dpp_vfx_sampler', 'vfx sampler'
    over, func, factor, base = 'rls_oversample_dppvfx', 'q_func', 'q', 's'
    fixed = ['alpha_star', 'logdet_I_A', 's', 'z', 'rls_estimate']
    def default(self, v): return v * v
    def make(self, ctx, nm, raw=False):
        at = {f: fresh(nm + '_' + f, R) for f in VFX}
        at['rej_to_first_sample'] = z3.IntVal(0) if raw else fresh('rej', I)
        at['rls_estimate'] = vector(ctx, 'l', ctx.ghost['n'])[0]
        if raw: at['q'] = z3.IntVal(-1)
        ctx.assume([at['s'] > 0]); o = Obj(NTClass('_IntermediateSampleInfo', VFX), at); o.ro = True
        return o
    def loop(ctx, loc):
        """contract of vfx_sampling_do_sampling_loop"""
        s, info = ctx.contract.check_loop(ctx, loc)
        rej = fresh('rejections', I); ctx.assume(rej >= 0)
        return (s, rej)
    uses = dict(Wrap.uses, **{IM + ':vfx_sampling_precompute_constants': Wrap.precompute, IM + ':vfx_sampling_do_sampling_loop': loop})

class SizeVfx(LoopSpec):
    """size rejection: independent rejection loops until the size is the one requested"""
    name = 'sizes'
    def entry(self, ls): ls.ctx.contract.attempts(ls)
    def begin(self, ls): ls.ctx.ghost['runs'] = []
    def fresh_value(self, ls, name, old):
        if isinstance(old, Obj) and 'rej_to_first_sample' in old.attrs:
            o = Obj(old.cls, dict(old.attrs, rej_to_first_sample=fresh('rej', I))); o.ro = True
            return o
        return NotImplemented
    def inv(self, ls):
        c = ls.ctx
        if ls.phase != 'head': c.contract.known(c, ls.v('intermediate_sample_info'))
        return []
    def end(self, ls):
        g, c = ls.ctx.ghost, ls.ctx
        ok = len(g['runs']) == 1
        c.check('one rejection loop per attempt', ok)
        if ok: c.check('samples of the requested size are not thrown away', g['runs'][0].size != g['size'])

class KVfxWrap(VfxWrap):
    """k_dpp_vfx_sampler: the first sample of the requested size; ValueError once the attempts are exhausted"""
    target, title, k = ES + ':k_dpp_vfx_sampler', 'vfx sampler of a k-DPP', True
    scenarios = ('fresh', 'fresh, function given', 'cached')
    loops = (SizeVfx(),)
    cut_concrete = True
    roles = dict(intermediate_sample_info=lambda v: isinstance(v, Obj) and 'rls_estimate' in v.attrs)
    must_reach = ('pre', 'return', 'raise:ValueError')
    def attempts(self, ls): ls.ctx.check('number of attempts allowed', to_int(ls.n) == z3.If(ls.ctx.ghost['max'] >= 0, ls.ctx.ghost['max'], 0))
    def known(self, ctx, info):
        g = ctx.ghost
        if g['pre'] is None and g['given'] is not None:
            s, k = to_real(g['given'].attrs['s']), z3.ToReal(g['size'])
            ctx.check('information given is used for the expected size it was computed for', z3.And(s - k <= k / 1000, k - s <= k / 1000))
        VfxWrap.known(self, ctx, info)
    def returned(self, ctx, s):
        g = ctx.ghost
        ok = len(g['runs']) == 1 and s is g['runs'][0]
        ctx.check('the sample is the one of the last rejection loop', ok)
        if ok: ctx.check('size of the sample', s.size == g['size'])

class AlphaWrap(Wrap):
    """alpha_dpp_sampler: one rejection loop, with the information given or the one pre-computed, r = r_func(deff)"""
    target, title = ES + ':alpha_dpp_sampler', 'alpha sampler'
    over, func, factor, base = 'rls_oversample_alphadpp', 'r_func', 'r', 'deff_alpha_L_hat'
    fixed = ['alpha_hat', 'k', 'eigvecs_L_hat', 'eigvals_L_hat', 'deff_alpha_L_hat', 'dict_alphadpp', 'diag_L']
    def default(self, v): return v
    def make(self, ctx, nm, raw=False):
        g = ctx.ghost; n = g['n']
        at = {f: fresh(nm + '_' + f, R) for f in ('alpha_hat', 'alpha_min', 'alpha_max', 'deff_alpha_L_hat', 'r')}
        at.update({f: fresh(nm + '_' + f, I) for f in ('rej_to_first_sample', 'trial_to_first_sample', 'alpha_switches')})
        at['k'] = (g['size'] if raw and self.k else fresh('k', I)) if self.k or not raw else z3.IntVal(-1)
        for f in ('eigvecs_L_hat', 'eigvals_L_hat', 'dict_alphadpp'): at[f] = Opaque(f)
        at['diag_L'], dl = vector(ctx, 'diag_L', n); g['dl'] = dl
        at['rls_upper_bound'] = vector(ctx, 'b', n)[0]; at['rls_upper_bound_valid'] = vector(ctx, 'valid', n, sort=B)[0]
        if raw: at['r'] = z3.IntVal(-1)
        ctx.assume([at[f] > 0 for f in ('alpha_hat', 'alpha_min', 'alpha_max')] + [at[f] >= 0 for f in ('rej_to_first_sample', 'trial_to_first_sample', 'alpha_switches')])
        if raw: ctx.assume([at[f] == 0 for f in ('rej_to_first_sample', 'trial_to_first_sample', 'alpha_switches')])
        o = Obj(NTClass('_IntermediateSampleInfoAlphaRescale', ALPHA), at); o.ro = True
        return o
    def consistent(self, ctx, o, say):
        """bounds: the refined ones are the estimates at the rescaling recorded, the others alpha L_ii; positive rescalings"""
        a, n = o.attrs, ctx.ghost['n']
        b, v = lib.to_arr(ctx, a['rls_upper_bound']), lib.to_arr(ctx, a['rls_upper_bound_valid'])
        dl = lib.to_arr(ctx, a['diag_L']).snap(); bs, vs = b.snap(), v.snap(); al = to_real(a['alpha_hat'])
        say(z3.And(to_int(b.axes[0].n) == n, to_int(v.axes[0].n) == n))
        say(z3.And(al > 0, to_real(a['alpha_min']) > 0, to_real(a['alpha_max']) > 0))
        say(All(lambda i: z3.Implies(rng_in((i, n)), bs(i) == z3.If(to_bool(vs(i)), TAUA(al, i), al * dl(i)))))
    def loop(ctx, loc):
        """contract of alpha_dpp_sampling_do_sampling_loop"""
        c, g = ctx.contract, ctx.ghost
        s, info = c.check_loop(ctx, loc)
        rej = fresh('rejections', I); ctx.assume(rej >= 0)
        n = g['n']; at = dict(info.attrs)
        at['rls_upper_bound'] = vector(ctx, 'b', n)[0]; at['rls_upper_bound_valid'] = vector(ctx, 'valid', n, sort=B)[0]
        o = Obj(info.cls, at); o.ro = True
        c.consistent(ctx, o, ctx.assume)
        g['last'] = o
        return (s, rej, o)
    uses = dict(Wrap.uses, **{IM + ':alpha_dpp_sampling_precompute_constants': Wrap.precompute, IM + ':alpha_dpp_sampling_do_sampling_loop': loop})
    def on_return(self, ctx, v):
        Wrap.on_return(self, ctx, v)

class SizeAlpha(LoopSpec):
    """size rejection, with a search of the rescaling: Houdini over the variables first assigned in the loop"""
    name = 'sizes'
    def unbound(self, ls):
        st = ls.ctx.run.__dict__.setdefault('c09_kept', {})
        return st.setdefault(ls.ctx.contract.scenario, {})
    def count(self, ls): return to_int(ls.v('sample_count'))
    def entry(self, ls):
        ls.ctx.contract.attempts(ls)
        ls.ctx.ghost['before'] = set(ls.frame.locals)
    def fresh_value(self, ls, name, old):
        if isinstance(old, Obj) and 'rls_upper_bound' in old.attrs: return ls.ctx.contract.moved(ls.ctx, old)
        return NotImplemented
    def head(self, ls):
        c, g = ls.ctx, ls.ctx.ghost
        good = self.unbound(ls)
        g['found'] = fresh('found', B)
        for nm in sorted(ls.names()):
            if nm not in g['before'] and good.get(nm, True):
                v = Kept(fresh('kept', I)); c.assume(z3.Implies(g['found'], v.size == g['size']))
                ls.frame.locals[nm] = v
    def begin(self, ls): ls.ctx.ghost['runs'] = []
    def inv(self, ls):
        c, g = ls.ctx, ls.ctx.ghost; k = self.count(ls)
        if ls.phase != 'head': c.contract.known(c, ls.v('intermediate_sample_info'))
        r = [('number of samples of the requested size', z3.And(k >= 0, k <= 1))]
        if ls.phase == 'entry': return r + [('no sample yet', k == 0)]
        if ls.phase == 'head': return r + [('a sample counted is kept', z3.Implies(k >= 1, g['found']))]
        return r
    def end(self, ls):
        from pvc.engine import Restart
        c, g = ls.ctx, ls.ctx.ghost
        c.check('one rejection loop per attempt', len(g['runs']) == 1)
        k = self.count(ls); good = self.unbound(ls)
        left = 0
        for nm in sorted(ls.names()):
            if nm in g['before'] or not good.get(nm, True): continue
            v = ls.frame.locals.get(nm)
            if isinstance(v, Kept): ok = c.entailed(z3.Implies(k >= 1, g['found']))
            elif isinstance(v, Drawn): ok = c.entailed(z3.Implies(k >= 1, v.size == g['size']))
            else: ok = False
            if ok is not True: good[nm] = False; raise Restart()
            left += 1
        c.check('a sample of the requested size is kept', left >= 1)

class KAlphaWrap(AlphaWrap):
    """alpha_k_dpp_sampler: a sample of the requested size; ValueError once the attempts are exhausted"""
    target, title, k = ES + ':alpha_k_dpp_sampler', 'alpha sampler of a k-DPP', True
    scenarios = ('fresh', 'fresh, function given', 'cached')
    loops = (SizeAlpha(),)
    cut_concrete = True
    fixed = ['k', 'eigvecs_L_hat', 'eigvals_L_hat', 'deff_alpha_L_hat', 'dict_alphadpp', 'diag_L']
    roles = dict(intermediate_sample_info=lambda v: isinstance(v, Obj) and 'rls_upper_bound' in v.attrs)
    must_reach = ('pre', 'return', 'raise:ValueError')
    uses = dict(AlphaWrap.uses, **{'dppy.utils:get_progress_bar': bar})
    attempts = KVfxWrap.attempts
    def setup(self, ctx):
        a, kw = AlphaWrap.setup(self, ctx)
        if self.scenario != 'fresh': kw['early_stop'] = z3.Bool('early_stop')
        return a, kw
    def moved(self, ctx, old):
        g = ctx.ghost; n = g['n']; at = dict(old.attrs)
        for f in ('alpha_hat', 'alpha_min', 'alpha_max'): at[f] = fresh(f, R)
        for f in ('rej_to_first_sample', 'trial_to_first_sample', 'alpha_switches'): at[f] = fresh(f, I); ctx.assume(at[f] >= 0)
        at['rls_upper_bound'] = vector(ctx, 'b', n)[0]; at['rls_upper_bound_valid'] = vector(ctx, 'valid', n, sort=B)[0]
        o = Obj(old.cls, at); o.ro = True
        self.consistent(ctx, o, ctx.assume)
        return o
    def known(self, ctx, info):
        g = ctx.ghost
        if g['pre'] is None and g['given'] is not None: ctx.check('information given is used for the size it was computed for', to_int(g['given'].attrs['k']) == g['size'])
        AlphaWrap.known(self, ctx, info)
    def returned(self, ctx, s):
        g = ctx.ghost
        ok = isinstance(s, Kept) or isinstance(s, Drawn) and s in g['runs']
        ctx.check('a sample of a rejection loop is returned', ok)
        if not ok: raise PathEnd()
        ctx.check('size of the sample', s.size == g['size'])
        if isinstance(s, Kept): ctx.check('a sample was kept', g['found'])


class Cached(finite.Exact):
    """sample_exact in vfx and alpha modes: information pre-computed for another sampler or expected size is not reused"""
    prop, title = 'C09', 'cached information (DPP)'
    scenarios = tuple(('eval', m) for m in ('vfx', 'alpha'))
class CachedK(finite.ExactK):
    """sample_exact_k_dpp in vfx and alpha modes: information pre-computed for another sampler or size is not reused"""
    prop, title = 'C09', 'cached information (k-DPP)'
    scenarios = Cached.scenarios

CONTRACTS = [VfxLoop, AlphaLoop, EstEmbedded, EstWeighted, VfxInfo, AlphaInfo, VfxWrap, KVfxWrap, AlphaWrap, KAlphaWrap, Cached, CachedK]
