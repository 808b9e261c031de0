"""C07, C08: the state of a FiniteDPP under contract.

Class invariant, relative to the correlation kernel K* and likelihood kernel L* fixed by the parametrisation: each cached
kernel equals K* or L*, the cached eigenvalues and eigenvectors are one orthonormal decomposition of both, caches of the
intermediate samplers and the table of symmetric polynomials belong to the arguments they are used with.  The constructor
establishes it; every public method is started from every reachable pattern of cached attributes and must restore it."""
from .base import *
import itertools

CORR, PROJ, LIKE, LPROJ = 'corr', 'corrproj', 'like', 'likeproj'
SOURCES = {'K': CORR, 'K_eig_dec': CORR, 'K projection': PROJ, 'K_eig_dec projection': PROJ, 'A_zono': PROJ,
           'L': LIKE, 'L_eig_dec': LIKE, 'gram d<N': LIKE, 'gram d>=N': LIKE, 'eval': LIKE,
           'L projection': LPROJ, 'L_eig_dec projection': LPROJ, 'gram d<N projection': LPROJ, 'gram d>=N projection': LPROJ, 'eval projection': LPROJ}
KERNEL_MODES, EIG_MODES = ('GS', 'Chol', 'Schur'), ('GS', 'GS_bis', 'KuTa12')

class Dec:
    """an orthonormal decomposition of the kernels: K* = sum_r V_r k_r V_r^T, L* = sum_r V_r l_r V_r^T, k = l/(1+l), over the r with mask(r)"""
    def __init__(self, V, m, k, l, mask=None): self.V, self.m, self.k, self.l, self.mask = V, m, k, l, mask
    def on(self, r): return self.mask(r) if self.mask else z3.BoolVal(True)
    def term(self, val): return lambda i, j: mk_sum(self.m, lambda r: z3.If(self.on(r), self.V(i, r) * val(r) * self.V(j, r), 0) if self.mask else self.V(i, r) * val(r) * self.V(j, r))

class Chain:
    """what an MCMC sampler returns: a nonempty list of states"""
    def __init__(self, law): self.law = law
    def v_getitem(self, ctx, k):
        if concrete(k) == -1: return Sample(('last', self))
        return Sample(('other', self))
    def v_len(self, ctx): return z3.Int('chain_length')
class Sample:
    def __init__(self, law): self.law = law
class Info:
    """information pre-computed by the intermediate samplers for a given method and size"""
    def __init__(self, key): self.key = key
class EvalL:
    def v_call(self, ctx, args, kw):
        w = ctx.ghost['w']
        if not (len(args) == 1 and not kw and args[0] is w['X']) and not (len(args) == 2 and not kw and args[0] is w['X'] and args[1] is w['X']):
            raise Unsupported('evaluation of the likelihood function on part of the data')
        return ctx.contract.full(ctx, 'L')
class Fresh:
    """any value a previous call may have left in an attribute that later calls must not depend on"""
    def __init__(self, what): self.what = what

class State(FnContract):
    law = True          # check what is sampled (C08), not only the state left behind (C07)
    must_reach = ('pre',)
    source = mode = None
    mname = 'dppy.finite_dpps'
    @property
    def world(self): return SOURCES[self.source]
    @property
    def is_proj(self): return self.world in (PROJ, LPROJ)
    # ---- the parametrisation
    def world_setup(self, ctx):
        N, m, d, rk = z3.Ints('N m d rank')
        ctx.assume([N >= 1, m >= 1, m <= N, rk >= 1, rk <= N])
        Kf, Lf = z3.Function('Kst', I, I, R), z3.Function('Lst', I, I, R)
        SYMMETRIC['Kst'] = SYMMETRIC['Lst'] = (0, 1)
        w = dict(N=N, m=m, d=d, rank=rk, K=Kf, L=Lf, decs=[], tables=[], X=None, A=None, Phi=None, dual=None, eval=None, den={}, duals=[])
        ctx.ghost['w'] = w
        if self.world == PROJ: ctx.assume(mk_sum(N, lambda i: Kf(i, i)) == z3.ToReal(rk))
        if self.world == PROJ: ctx.assume(All(lambda i, j: z3.Implies(rng_in((i, N), (j, N)), mk_sum(N, lambda t: Kf(i, t) * Kf(t, j)) == Kf(i, j)), 2, name='projection'))
        if self.world == LPROJ: ctx.assume(All(lambda i, j: z3.Implies(rng_in((i, N), (j, N)), mk_sum(N, lambda t: Lf(i, t) * Lf(t, j)) == Lf(i, j)), 2, name='projection'))
        if self.source.startswith('gram'):
            ctx.assume([d >= 1, (d < N) if '<' in self.source else (d >= N)])
            w['Phi'], Pf = matrix(ctx, 'Phi', d, N); w['Pf'] = Pf
            ctx.assume(All(lambda i, j: z3.Implies(rng_in((i, N), (j, N)), Lf(i, j) == mk_sum(d, lambda a: Pf(a, i) * Pf(a, j))), 2, name='L = Phi^T Phi'))
        if self.source.startswith('eval'):
            ctx.assume(d >= 1)
            w['X'], _ = matrix(ctx, 'X', N, d); w['eval'] = EvalL()
        if self.source == 'A_zono':
            w['A'], _ = matrix(ctx, 'A', rk, N)
        return w
    def full(self, ctx, which):
        w = ctx.ghost['w']; f = w[which]
        a, _ = matrix(ctx, which, w['N'], w['N'], fn=lambda i, j: f(i, j))
        self.note(ctx, a, which)
        return a
    def note(self, ctx, a, which): ctx.ghost['w']['den'][id(a)] = (a, which)
    def dec(self, ctx, kind, m, values=None):
        """an orthonormal decomposition of K* (kind 'K') or L* (kind 'L'); the spectral theorem gives the other kernel"""
        w = ctx.ghost['w']; N = w['N']
        V = fresh_fn('V', I, I, R); v = values or fresh_fn('eig' + kind, I, R)
        rng = lambda r: z3.And(r >= 0, r < m)
        ctx.assume(All(lambda r, s: z3.Implies(z3.And(rng(r), rng(s)), mk_sum(N, lambda i: V(i, r) * V(i, s)) == z3.If(r == s, z3.RealVal(1), z3.RealVal(0))), 2, name='orthonormal'))
        if kind == 'K':
            if not values: ctx.assume(All(lambda r: z3.Implies(rng(r), z3.And(v(r) >= 0, v(r) <= 1))))
            if self.world == CORR and self.needs_L: ctx.assume(All(lambda r: z3.Implies(rng(r), v(r) < 1), name='I - K is invertible'))
            if self.world == PROJ: ctx.assume(All(lambda r: z3.Implies(rng(r), z3.Or(v(r) == 0, v(r) == 1))))
            k, l = v, (lambda r: v(r) / (1 - v(r)))
        else:
            ctx.assume(All(lambda r: z3.Implies(rng(r), v(r) >= 0)))
            if self.world == LPROJ: ctx.assume(All(lambda r: z3.Implies(rng(r), z3.Or(v(r) == 0, v(r) == 1))))
            k, l = (lambda r: v(r) / (1 + v(r))), v
        D = Dec(V, m, k, l)
        self.spectral(ctx, D)
        return D
    needs_L = False
    assumes = ('spectral theorem: an orthonormal decomposition of K* (of L*) decomposes the other kernel with eigenvalues l = k/(1-k) (k = l/(1+l))',
               'scipy.linalg.eigh returns an orthonormal eigendecomposition; scipy.linalg.qr(mode=economic) of A^T an orthonormal basis Q of the row space of A, with A^T (A A^T)^-1 A = Q Q^T',
               'eigenvalues are those of exact arithmetic (K: in [0,1], below 1 where L is asked for; L: nonnegative; projections: 0 or 1); the dual kernel has no nonzero eigenvalue below d * max * eps',
               'lemma DualGram: the eigenvectors of Phi^T Phi of nonzero eigenvalue are Phi^T u / sqrt(w) for the eigenpairs (w, u) of Phi Phi^T',
               'the likelihood function is called on the whole data and returns a fresh matrix',
               'a user does not modify attributes of the object between calls')
    def spectral(self, ctx, D):
        w = ctx.ghost['w']; N = w['N']
        ctx.assume(All(lambda i, j: z3.Implies(rng_in((i, N), (j, N)), w['K'](i, j) == D.term(D.k)(i, j)), 2, name='spectral K'))
        if self.world in (LIKE, LPROJ) or self.needs_L and self.world == CORR:
            ctx.assume(All(lambda i, j: z3.Implies(rng_in((i, N), (j, N)), w['L'](i, j) == D.term(D.l)(i, j)), 2, name='spectral L'))
        if self.world == PROJ: ctx.assume(mk_sum(D.m, lambda r: D.k(r)) == z3.ToReal(w['rank']))
        w['decs'].append(D)
    def arrays(self, ctx, D, which):
        w = ctx.ghost['w']
        v, _ = vector(ctx, 'eig_vals', D.m, fn=D.k if which == 'K' else D.l)
        return v
    def vecs(self, ctx, D):
        w = ctx.ghost['w']
        V, _ = matrix(ctx, 'eig_vecs', w['N'], D.m, fn=D.V)
        return V
    # ---- the object, in any reachable state
    def patterns(self):
        """(K, K eigenvalues, L, L eigenvalues) that may be cached"""
        s, out = self.source, []
        for p in itertools.product((0, 1), repeat=4):
            K, ke, L, le = p
            if self.world == PROJ and (L or le): continue
            if s in ('K', 'K projection') and not K: continue
            if s.startswith('K_eig_dec') and not ke: continue
            if s in ('L', 'L projection', 'gram d>=N', 'gram d>=N projection') and not L: continue
            if s.startswith('L_eig_dec') and not le: continue
            if self.world == CORR and (L > le or le > ke): continue
            if self.world in (LIKE, LPROJ) and (K > ke or ke > le): continue
            if s == 'A_zono' and K > ke: continue
            out.append(p)
        return out
    def admissible(self, ctx, o):
        a = o.attrs
        has = tuple(int(a.get(n) is not None) for n in ('K', 'K_eig_vals', 'L', 'L_eig_vals'))
        ctx.check('the cached attributes form a known pattern', has in self.patterns())
    def instance(self, ctx):
        w = ctx.ghost['w']; N = w['N']
        pats = self.patterns()
        K, ke, L, le = pats[ctx.decide(len(pats), 'state')]
        D = None
        if ke or le:
            if self.source == 'A_zono':
                D = self.dec(ctx, 'K', w['rank'], values=lambda r: z3.RealVal(1))
            else:
                D = self.dec(ctx, 'K' if self.world in (CORR, PROJ) else 'L', w['m'])
        o = Obj(self.cls(ctx), {})
        o.attrs.update(kernel_type='correlation' if self.world in (CORR, PROJ) else 'likelihood', projection=self.is_proj,
            params_keys=frozenset(self.keys()), sampling_mode=Fresh('sampling_mode'), size_k_dpp=Fresh('size_k_dpp'),
            K=self.full(ctx, 'K') if K else None, L=self.full(ctx, 'L') if L else None,
            K_eig_vals=self.arrays(ctx, D, 'K') if ke else None, L_eig_vals=self.arrays(ctx, D, 'L') if le else None,
            eig_vecs=self.vecs(ctx, D) if D else None,
            A_zono=w['A'], L_gram_factor=w['Phi'], eval_L=w['eval'], X_data=w['X'], L_dual=None,
            intermediate_sample_info=None, intermediate_sample_key=None, E_poly=None)
        if self.source.startswith('gram d<N'):
            Pf = w['Pf']
            a, _ = matrix(ctx, 'L_dual', w['d'], w['d'], fn=lambda a, b: mk_sum(N, lambda i: Pf(a, i) * Pf(b, i)))
            self.note(ctx, a, 'dual'); o.attrs['L_dual'] = a
        samples = Lst(None, z3.Int('len_samples'), None, None); ctx.assume(samples.n >= 0)
        o.attrs['list_of_samples'] = samples
        self.history(ctx, o, D)
        ctx.ghost.update(self=o, samples=samples, appended=[], frame={n: o.attrs[n] for n in ('kernel_type', 'projection', 'A_zono', 'L_gram_factor', 'eval_L', 'X_data', 'L_dual')})
        return o
    def history(self, ctx, o, D):
        """caches left by earlier exact samplings"""
        if o.attrs['L_eig_vals'] is not None and self.k_dpp and self.mode not in ('vfx', 'alpha') and ctx.decide(2, 'table'):
            q = z3.Int('rows'); ctx.assume(q >= 1)
            o.attrs['E_poly'] = self.table(ctx, q, D.m)
        if self.source.startswith('eval') and self.mode in ('vfx', 'alpha'):
            keys = [None] + self.keys_seen()
            key = keys[ctx.decide(len(keys), 'info')]
            if key is not None:
                o.attrs['intermediate_sample_key'] = key
                o.attrs['intermediate_sample_info'] = Info(key) if ctx.decide(2, 'cached') == 0 else None
    def keys_seen(self): return [('vfx', None), ('vfx', 3), ('vfx', 5), ('alpha', None), ('alpha', 3), ('k-vfx', 3), ('k-vfx', 5), ('k-alpha', 3)]
    k_dpp = False
    def table(self, ctx, rows, m):
        E = lib.new(ctx, [rows, m + 1], R, fresh_fn('e', I, I, R)); E.ro = True
        ctx.ghost['w']['tables'].append(E)
        return E
    def cls(self, ctx):
        mod = ctx.repo.module(self.mname)
        return ClassVal(mod, mod.defs['FiniteDPP'], self.mname + ':FiniteDPP')
    def keys(self):
        s = self.source.replace(' projection', '')
        return [{'gram d<N': 'L_gram_factor', 'gram d>=N': 'L_gram_factor', 'eval': 'L_eval_X_data'}.get(s, s)]
    # ---- denotations
    def denote(self, ctx, a):
        """which kernel an array equals: 'K', 'L' or 'dual' (proved), else None"""
        w = ctx.ghost['w']; N = w['N']
        if id(a) in w['den'] and w['den'][id(a)][0] is a and getattr(a, 'ro', False): return w['den'][id(a)][1]
        if not isinstance(a, Arr) or a.ndim != 2 or any(x.mask is not None for x in a.axes): return None
        s = a.snap()
        for which in ('L', 'K'):
            if self.world == PROJ and which == 'L': continue
            f = w[which]
            if ctx.entailed(z3.And(to_int(a.axes[0].n) == N, to_int(a.axes[1].n) == N)) is True and ctx.prove(All(lambda i, j: z3.Implies(rng_in((i, N), (j, N)), s(i, j) == f(i, j)), 2), timeout=4000):
                return which
        return None
    def is_kernel(self, ctx, what, a, which):
        w = ctx.ghost['w']; N, f = w['N'], w[which]
        if not isinstance(a, Arr) or a.ndim != 2 or any(x.mask is not None for x in a.axes): raise Unsupported('kernel matrix expected')
        s = a.snap()
        ctx.check(what + ' (shape)', z3.And(to_int(a.axes[0].n) == N, to_int(a.axes[1].n) == N))
        ctx.check(what, All(lambda i, j: z3.Implies(rng_in((i, N), (j, N)), s(i, j) == f(i, j)), 2))
    def which_dec(self, ctx, V):
        """the known decomposition with these eigenvectors (proved column by column), or None"""
        w = ctx.ghost['w']; N = w['N']
        if not isinstance(V, Arr) or V.ndim != 2 or V.axes[0].mask is not None: return None
        s = V.snap(); mask = V.axes[1].mask
        for D in w['decs']:
            if ctx.entailed(z3.And(to_int(V.axes[0].n) == N, to_int(V.axes[1].n) == D.m)) is not True: continue
            def col(D=D):
                goal = All(lambda i, r: z3.Implies(z3.And(rng_in((i, N), (r, D.m)), D.on(r)), s(i, r) == D.V(i, r)), 2)
                return ctx.prove(goal, timeout=3000)
            if col(): return D
        return None
    def values_are(self, ctx, what, v, D, val):
        if not isinstance(v, Arr) or v.ndim != 1: raise Unsupported('vector of eigenvalues')
        s = v.snap(); mask = v.axes[0].mask or (lambda r: z3.BoolVal(True))
        ctx.check(what + ' (length)', to_int(v.axes[0].n) == D.m)
        ctx.check(what, All(lambda r: z3.Implies(rng_in((r, D.m)), z3.And(mask(r) == D.on(r), z3.Implies(D.on(r), s(r) == val(r))))))
    # ---- numerical libraries
    def eigh(ctx, args, kw):
        self, w = ctx.contract, ctx.ghost['w']
        if kw or len(args) != 1: raise Unsupported('eigh with options')
        which = self.denote(ctx, args[0])
        if which is None:
            ctx.check('an eigendecomposition is taken of a kernel of the DPP', False); raise PathEnd()
        if which == 'dual':
            d, N, Pf = w['d'], w['N'], w['Pf']
            e, U = fresh_fn('w', I, R), fresh_fn('U', I, I, R)
            inr = lambda r: z3.And(r >= 0, r < d)
            EPS = z3.Real('EPS')
            ctx.assume(All(lambda r: z3.Implies(inr(r), e(r) >= 0)))
            ctx.assume(All(lambda r, s: z3.Implies(z3.And(inr(r), inr(s)), z3.Or(e(r) == 0, e(r) > e(s) * z3.ToReal(d) * EPS)), 2, name='no spurious eigenvalue below d * max * eps'))
            V = fresh_fn('Vd', I, I, R)
            ctx.assume(All(lambda i, r: z3.Implies(z3.And(inr(r), e(r) > 0), V(i, r) == mk_sum(d, lambda a: Pf(a, i) * U(a, r)) / SQRT(e(r))), 2, name='eigenvectors of L from those of the dual'))
            if self.world == LPROJ: ctx.assume(All(lambda r: z3.Implies(inr(r), z3.Or(e(r) == 0, e(r) == 1))))
            self.spectral(ctx, Dec(V, d, lambda r: e(r) / (1 + e(r)), e, mask=lambda r: e(r) > 0))
            return vector(ctx, 'dual_vals', d, fn=e)[0], matrix(ctx, 'dual_vecs', d, d, fn=U)[0]
        D = self.dec(ctx, which, w['N'])
        return self.arrays(ctx, D, which), self.vecs(ctx, D)
    def qr(ctx, args, kw):
        self, w = ctx.contract, ctx.ghost['w']
        if w['A'] is None or len(args) != 1 or set(kw) != {'mode'} or kw['mode'] != 'economic': raise Unsupported('qr')
        a = args[0]; A = w['A'].snap(); s = a.snap()
        ctx.check('QR factorisation of A transposed', z3.And(to_int(a.axes[0].n) == w['N'], to_int(a.axes[1].n) == w['rank']))
        ctx.check('QR factorisation of A transposed (entries)', All(lambda i, r: z3.Implies(rng_in((i, w['N']), (r, w['rank'])), s(i, r) == A(r, i)), 2))
        D = self.dec(ctx, 'K', w['rank'], values=lambda r: z3.RealVal(1))
        return self.vecs(ctx, D), Opaque('R factor')
    def trace(ctx, args, kw):
        r = lib.EXT['numpy.trace'](ctx, args, kw)
        self, w = ctx.contract, ctx.ghost['w']
        which = self.denote(ctx, args[0])
        if which in ('K', 'L'): ctx.assume(to_real(r) == mk_sum(w['N'], lambda i: w[which](i, i)))     # entries are equal, so are the traces
        return r
    externals = {'numpy.trace': trace, 'scipy.linalg.eigh': eigh, 'scipy.linalg.qr': qr, 'numpy.linalg.eigh': eigh}
    # ---- validators (proved under C19: the argument is returned when it passes the test, ValueError otherwise)
    def validator(pred):
        def f(ctx, loc):
            v = list(loc.values())[0]
            if v is None: return None
            pred(ctx.contract, ctx, v)
            return v
        return f
    def v_values(p):
        def f(self, ctx, v):
            s = v.snap(); A = v.axes[0]
            ctx.check('the eigenvalues pass the validation', All(lambda r: z3.Implies(z3.And(A.dom(r)), p(s(r)))))
        return f
    def v_sym(self, ctx, a):
        if self.denote(ctx, a) is None: ctx.check('the kernel passes the validation (symmetry)', False)
    def v_proj(self, ctx, a):
        which = self.denote(ctx, a)
        ctx.check('the kernel passes the validation (projection)', which == {PROJ: 'K', LPROJ: 'L'}.get(self.world, 'none'))
    def v_orth(self, ctx, V):
        ctx.check('the eigenvectors pass the validation', self.which_dec(ctx, V) is not None)
    def v_full(self, ctx, A): ctx.check('the matrix passes the validation (full row rank)', A is ctx.ghost['w']['A'])
    # ---- samplers (contracts proved or checked under the property named)
    def same_rng(self, ctx, loc):
        ctx.check('the sampler draws from the generator given', loc.get('random_state') is ctx.ghost['rng'])
    def mode_is(self, ctx, mode, allowed):
        if not isinstance(mode, str): ctx.check('the mode is passed to the sampler', False); raise PathEnd()
        ctx.check('the mode is passed to the sampler', mode == self.mode)
        if mode not in allowed: raise PyRaise('ValueError', 'mode not supported by this sampler')
    def size_is(self, ctx, size, r):
        """size k of a projection sampler; rank r when omitted"""
        return r if size is None else to_int(size)
    def proj_kernel(ctx, loc):          # C01
        self, w = ctx.contract, ctx.ghost['w']
        self.same_rng(ctx, loc); self.mode_is(ctx, loc['mode'], KERNEL_MODES)
        which = {PROJ: 'K', LPROJ: 'L'}.get(self.world)
        if which is None: ctx.check('the kernel sampler is used with a projection kernel', False); raise PathEnd()
        self.is_kernel(ctx, 'the projection kernel is passed to the sampler', loc['kernel'], which)
        return Sample(('projection', which, None if loc['size'] is None else to_int(loc['size'])))
    def generic(ctx, loc):              # C03
        self = ctx.contract
        self.same_rng(ctx, loc)
        self.is_kernel(ctx, 'the correlation kernel is passed to the sampler', loc['K'], 'K')
        return Sample(('DPP',)), Opaque('LU')
    def select(ctx, loc):               # C04
        self = ctx.contract
        self.same_rng(ctx, loc)
        D = self.decomposes(ctx, loc['eig_vecs'])
        self.values_are(ctx, 'eigenvectors are selected with the eigenvalues of K', list(loc.values())[0], D, D.k)
        V = matrix(ctx, 'selected', ctx.ghost['w']['N'], fresh('nb', I))[0]
        ctx.ghost['w'].setdefault('sel', []).append((V, ('DPP',)))
        return V
    def decomposes(self, ctx, V):
        D = self.which_dec(ctx, V)
        if D is None: ctx.check('the eigenvectors of the kernel are used', False); raise PathEnd()
        return D
    def kselect(ctx, loc):              # C04
        self = ctx.contract
        self.same_rng(ctx, loc)
        D = self.decomposes(ctx, loc['eig_vecs'])
        self.values_are(ctx, 'eigenvectors are selected with the eigenvalues of L', loc['eig_vals'], D, D.l)
        size, E = to_int(loc['size']), loc['E_poly']
        if E is not None:
            ctx.check('the table of symmetric polynomials is that of the eigenvalues', any(E is t for t in ctx.ghost['w']['tables']))
            ctx.check('the table of symmetric polynomials covers the size', to_int(E.axes[0].n) >= size + 1)
        if ctx.decide(2, 'rank') == 1: raise PyRaise('ValueError', 'size above the rank')
        V = matrix(ctx, 'selected', ctx.ghost['w']['N'], fresh('nb', I))[0]
        ctx.ghost['w'].setdefault('sel', []).append((V, ('k-DPP', size)))
        return V
    def esp(ctx, loc):                  # C04
        self = ctx.contract
        o = ctx.ghost['self']
        D = self.which_dec(ctx, o.attrs['eig_vecs'])
        if D is None: ctx.check('the eigenvectors of the kernel are used', False); raise PathEnd()
        self.values_are(ctx, 'symmetric polynomials of the eigenvalues of L', loc['eig_vals'], D, D.l)
        return self.table(ctx, to_int(loc['size']) + 1, D.m)
    def proj_eig(ctx, loc):             # C02
        self, w = ctx.contract, ctx.ghost['w']
        self.same_rng(ctx, loc); self.mode_is(ctx, loc['mode'], EIG_MODES)
        V, size = loc['eig_vecs'], loc['size']
        for S, law in w.get('sel', []):
            if S is V:
                if size is not None:
                    ctx.check('all selected eigenvectors are used', law[0] == 'k-DPP' and to_int(size) == law[1])
                return Sample(law)
        which = {PROJ: 'K', LPROJ: 'L'}.get(self.world)
        if which is None: ctx.check('eigenvectors are selected before sampling', False); raise PathEnd()
        # all the eigenvectors of the eigenvalue 1
        D = self.decomposes(ctx, V)
        mask = V.axes[1].mask or (lambda r: z3.BoolVal(True))
        val = D.k if which == 'K' else D.l
        ctx.check('exactly the eigenvectors of the eigenvalue 1 are used', All(lambda r: z3.Implies(z3.And(rng_in((r, D.m)), D.on(r)), mask(r) == (val(r) == 1))))
        if D.mask: ctx.check('no spurious eigenvector is used', All(lambda r: z3.Implies(z3.And(rng_in((r, D.m)), mask(r)), D.on(r))))
        return Sample(('projection', which, None if size is None else to_int(size)))
    def intermediate(name, size_arg):
        def f(ctx, loc):
            self, w = ctx.contract, ctx.ghost['w']
            self.same_rng(ctx, loc)
            ctx.check('the sampler gets the data and the likelihood function', loc['X_data'] is w['X'] and loc['eval_L'] is w['eval'])
            extra = dict(loc['params'])
            size = loc['size'] if size_arg else extra.get('desired_expected_size')
            want = dict(ctx.ghost['params']); want.pop('random_state', None)
            ctx.check('the options are passed to the sampler', extra == want)
            key = (name, size)
            info = loc['intermediate_sample_info']
            ctx.check('pre-computed information is reused only with the arguments it was computed for', info is None or isinstance(info, Info) and info.key == key)
            if size_arg and ctx.decide(2, 'exhausted') == 1: raise PyRaise('ValueError', 'no sample of the requested size')
            return Sample(('intermediate',) + key), (info if info is not None else Info(key))
        return f
    def mcmc(ctx, loc):                 # C05
        self, w = ctx.contract, ctx.ghost['w']
        which = ctx.ghost.get('target')
        ctx.check('the mode is passed to the sampler', loc['mode'] == self.mode)
        if which is None: ctx.check('the chain is run only for supported combinations', False); raise PathEnd()
        self.is_kernel(ctx, 'the kernel of the DPP is passed to the MCMC sampler', loc['kernel'], which)
        self.same_params(ctx, loc['params'])
        return Chain('mcmc')
    def zono(ctx, loc):
        self, w = ctx.contract, ctx.ghost['w']
        ctx.check('the zonotope sampler is used in its mode', self.mode == 'zonotope')
        ctx.check('the matrix A is passed to the zonotope sampler', loc['A_zono'] is w['A'])
        self.same_params(ctx, loc['params'])
        return Chain('zonotope')
    def same_params(self, ctx, p):
        want = ctx.ghost['params']
        ctx.check('the options are passed to the sampler', set(p) == set(want) and all(p[k] is want[k] or (isinstance(p[k], (int, str, bool)) and p[k] == want[k]) for k in p))
    U, S = 'dppy.utils:', 'dppy.exact_sampling:'
    uses = dict(FnContract.uses, **{
        U + 'is_symmetric': validator(v_sym), U + 'is_projection': validator(v_proj), U + 'is_orthonormal_columns': validator(v_orth),
        U + 'is_full_row_rank': validator(v_full), U + 'is_in_01': validator(v_values(lambda x: z3.And(x >= 0, x <= 1))),
        U + 'is_geq_0': validator(v_values(lambda x: x >= 0)), U + 'is_equal_to_O_or_1': validator(v_values(lambda x: z3.Or(x == 0, x == 1))),
        S + 'proj_dpp_sampler_kernel': proj_kernel, S + 'dpp_sampler_generic_kernel': generic, S + 'proj_dpp_sampler_eig': proj_eig,
        S + 'dpp_eig_vecs_selector': select, S + 'k_dpp_eig_vecs_selector': kselect, S + 'elementary_symmetric_polynomials': esp,
        S + 'dpp_vfx_sampler': intermediate('vfx', False), S + 'alpha_dpp_sampler': intermediate('alpha', False),
        S + 'k_dpp_vfx_sampler': intermediate('k-vfx', True), S + 'alpha_k_dpp_sampler': intermediate('k-alpha', True),
        'dppy.mcmc_sampling:dpp_sampler_mcmc': mcmc, 'dppy.mcmc_sampling:zonotope_sampler': zono})
    del eigh, qr, trace, validator, v_values, v_sym, v_proj, v_orth, v_full, proj_kernel, generic, select, kselect, esp, proj_eig, intermediate, mcmc, zono
    # ---- the invariant
    def invariant(self, ctx, o):
        w = ctx.ghost['w']; a = o.attrs
        for n, v in ctx.ghost['frame'].items():
            ctx.check('%s is left as it was' % n, a.get(n) is v or isinstance(v, (str, bool)) and a.get(n) == v)
        self.admissible(ctx, o)
        for n in ('K', 'L'):
            if a.get(n) is not None: self.is_kernel(ctx, 'the cached kernel %s is that of the DPP' % n, a[n], n)
        if a.get('K_eig_vals') is not None or a.get('L_eig_vals') is not None:
            if a.get('eig_vecs') is None: ctx.check('eigenvectors are cached with the eigenvalues', False); return
            D = self.which_dec(ctx, a['eig_vecs'])
            if D is None: ctx.check('the cached eigenvectors are those of the kernel', False); return
            m = a['eig_vecs'].axes[1].mask or (lambda r: z3.BoolVal(True))
            ctx.check('the cached eigenvectors are those of nonzero eigenvalues at least', All(lambda r: z3.Implies(rng_in((r, D.m)), m(r) == D.on(r))))
            if a.get('K_eig_vals') is not None: self.values_are(ctx, 'the cached eigenvalues of K are those of the DPP', a['K_eig_vals'], D, D.k)
            if a.get('L_eig_vals') is not None: self.values_are(ctx, 'the cached eigenvalues of L are those of the DPP', a['L_eig_vals'], D, D.l)
        E = a.get('E_poly')
        ctx.check('the cached table of symmetric polynomials is that of the eigenvalues', E is None or a.get('L_eig_vals') is not None and any(E is t for t in w['tables']))
        info, key = a.get('intermediate_sample_info'), a.get('intermediate_sample_key')
        ctx.check('the cached intermediate information carries its key', info is None or isinstance(info, Info) and info.key == key)
    def on_append(self, ctx, o, v):
        ctx.ghost['appended'].append((o, v)); return None

class Init(State):
    target, title = 'dppy.finite_dpps:FiniteDPP.__init__', 'constructor'
    scenarios = tuple(SOURCES)
    must_reach = ('pre', 'return')
    def setup(self, ctx):
        self.source = self.scenario
        w = self.world_setup(ctx)
        D = None
        if 'eig_dec' in self.source: D = self.dec(ctx, self.source[0], w['m'])
        k = self.keys()[0]
        p = {'K': lambda: self.full(ctx, 'K'), 'L': lambda: self.full(ctx, 'L'), 'A_zono': lambda: w['A'], 'L_gram_factor': lambda: w['Phi'],
             'L_eval_X_data': lambda: (w['eval'], w['X']), 'K_eig_dec': lambda: (self.arrays(ctx, D, 'K'), self.vecs(ctx, D)), 'L_eig_dec': lambda: (self.arrays(ctx, D, 'L'), self.vecs(ctx, D))}[k]()
        o = Obj(self.cls(ctx), {})
        ctx.ghost.update(self=o, appended=[], frame={}, given=p)
        kw = {k: p}
        if self.is_proj and not (self.source == 'A_zono' and ctx.decide(2, 'projection flag')): kw['projection'] = True
        return [o, 'correlation' if self.world in (CORR, PROJ) else 'likelihood'], kw
    def on_return(self, ctx, v):
        o, w = ctx.ghost['self'], ctx.ghost['w']; a = o.attrs
        ctx.ghost['frame'] = dict(kernel_type='correlation' if self.world in (CORR, PROJ) else 'likelihood', projection=self.is_proj,
                                  A_zono=w['A'], L_gram_factor=w['Phi'], eval_L=w['eval'], X_data=w['X'])
        self.invariant(ctx, o)
        d = a.get('L_dual')
        if self.source.startswith('gram d<N'):
            if d is None: ctx.check('the dual likelihood kernel is computed', False)
            else:
                s = d.snap(); dd, N, Pf = w['d'], w['N'], w['Pf']
                ctx.check('the dual likelihood kernel is Phi Phi^T', z3.And(to_int(d.axes[0].n) == dd, to_int(d.axes[1].n) == dd))
                ctx.check('the dual likelihood kernel is Phi Phi^T (entries)', All(lambda i, j: z3.Implies(rng_in((i, dd), (j, dd)), s(i, j) == mk_sum(N, lambda t: Pf(i, t) * Pf(j, t))), 2))
        else: ctx.check('no dual kernel is recorded', d is None)
        l = a.get('list_of_samples')
        ctx.check('no sample is recorded yet', isinstance(l, Lst) and l.concrete and not l.items)
        ctx.check('no intermediate information yet', a.get('intermediate_sample_info') is None and a.get('intermediate_sample_key') is None and a.get('E_poly') is None)

class Compute(State):
    must_reach = ('pre',)
    which = 'K'
    scenarios = tuple(SOURCES)
    def setup(self, ctx):
        self.source = self.scenario
        self.world_setup(ctx); o = self.instance(ctx)
        return [o], {}
    def refused(self): return self.which == 'L' and self.world == PROJ
    def on_return(self, ctx, v):
        o = ctx.ghost['self']
        if self.refused(): ctx.check('the likelihood kernel of a projection correlation kernel is refused', False); return
        self.invariant(ctx, o)
        a = o.attrs.get(self.which)
        if a is None: ctx.check('the kernel is computed', False)
        else: self.is_kernel(ctx, 'the computed kernel %s is that of the DPP' % self.which, a, self.which)
        ctx.check('no sample is recorded', not ctx.ghost['appended'] and o.attrs.get('list_of_samples') is ctx.ghost['samples'])
    def on_raise(self, ctx, e):
        if self.refused() and e.kind == 'ValueError':
            ctx.check('refused with ValueError', True); self.invariant(ctx, ctx.ghost['self']); return
        State.on_raise(self, ctx, e)

class ComputeK(Compute):
    target, title, which = 'dppy.finite_dpps:FiniteDPP.compute_K', 'correlation kernel', 'K'
class ComputeL(Compute):
    target, title, which, needs_L = 'dppy.finite_dpps:FiniteDPP.compute_L', 'likelihood kernel', 'L', True

class Exact(State):
    target, title = 'dppy.finite_dpps:FiniteDPP.sample_exact', 'exact sampling'
    MODES = ('GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur', 'vfx', 'alpha')
    scenarios = tuple(itertools.product(SOURCES, MODES))
    def setup(self, ctx):
        self.source, self.mode = self.scenario
        self.world_setup(ctx); o = self.instance(ctx)
        ctx.ghost['rng'] = rng = Rng()
        p = {'random_state': rng}
        if self.mode in ('vfx', 'alpha'):
            if ctx.decide(2, 'expected size') == 0: p['desired_expected_size'] = 3
            p['verbose'] = False
        ctx.ghost['params'] = dict(p)
        return [o], dict(p, mode=self.mode)
    def unsupported(self):
        if self.mode in ('vfx', 'alpha'): return not self.source.startswith('eval')
        if self.mode == 'Schur': return self.world != PROJ
        return False
    def may_refuse(self):
        # the kernel samplers have no GS_bis and KuTa12: refused until the eigenvectors are known
        return self.mode in ('GS_bis', 'KuTa12') and self.source == 'K projection'
    def targets(self):
        if self.mode in ('vfx', 'alpha'): return [('intermediate', self.mode, 3), ('intermediate', self.mode, None)]
        return [('projection', 'K', None)] if self.world == PROJ else [('DPP',)]
    def recorded(self, ctx, v):
        o, g = ctx.ghost['self'], ctx.ghost
        mine = [x for l, x in g['appended'] if l is g['samples']]
        ctx.check('exactly one entry is recorded', len(g['appended']) == 1 and len(mine) == 1 and o.attrs.get('list_of_samples') is g['samples'])
        return mine[0] if mine else None
    def on_return(self, ctx, v):
        g = ctx.ghost
        if self.unsupported(): ctx.check('unsupported combinations are refused', False); return
        self.invariant(ctx, g['self'])
        if not self.law: return
        x = self.recorded(ctx, v)
        ctx.check('the entry recorded is the sample returned', x is not None and x is v)
        self.right_law(ctx, v)
    def right_law(self, ctx, v):
        law = v.law if isinstance(v, Sample) else None
        if law and law[0] == 'projection' and law[2] is not None:
            ctx.check('as many points as the rank', law[2] == ctx.ghost['w']['rank']); law = law[:2] + (None,)
        if law and law[0] == 'intermediate': ctx.check('the sample is drawn for the expected size asked', law[2] == ctx.ghost['params'].get('desired_expected_size'))
        ctx.check('the sample follows the law of the DPP', law in self.targets())
    def on_raise(self, ctx, e):
        g = ctx.ghost
        if e.kind == 'ValueError' and (self.unsupported() or self.may_refuse()):
            if self.law: ctx.check('nothing is recorded when the call is refused', not g['appended'])
            self.invariant(ctx, g['self']); return
        State.on_raise(self, ctx, e)

class ExactK(Exact):
    target, title, needs_L, k_dpp = 'dppy.finite_dpps:FiniteDPP.sample_exact_k_dpp', 'exact sampling of a k-DPP', True, True
    def setup(self, ctx):
        self.source, self.mode = self.scenario
        w = self.world_setup(ctx); o = self.instance(ctx)
        ctx.ghost['rng'] = rng = Rng()
        p = {'random_state': rng}
        if self.mode in ('vfx', 'alpha'): p['verbose'] = False; size = 3
        else:
            size = z3.Int('size'); ctx.assume([size >= 1])
            if self.world == LPROJ: ctx.assume(size <= w['rank'])
        ctx.ghost['params'] = dict(p); ctx.ghost['size'] = size
        return [o, size], dict(p, mode=self.mode)
    def unsupported(self):
        if self.mode in ('vfx', 'alpha'): return not self.source.startswith('eval')
        if self.mode in ('Chol', 'Schur'): return not self.is_proj
        return False
    def may_refuse(self): return True
    def right_law(self, ctx, v):
        g = ctx.ghost; size = g['size']
        law = v.law if isinstance(v, Sample) else ('none',)
        if self.mode in ('vfx', 'alpha'): ctx.check('the sample follows the law of the k-DPP', law == ('intermediate', 'k-' + self.mode, size)); return
        if self.is_proj:
            ctx.check('the sample follows the law of the k-DPP', law[:2] == ('projection', 'K' if self.world == PROJ else 'L'))
            if law[0] == 'projection':
                ctx.check('the sample has the size asked', (law[2] if law[2] is not None else g['w']['rank']) == size)
        else:
            ctx.check('the sample follows the law of the k-DPP', law[0] == 'k-DPP')
            if law[0] == 'k-DPP': ctx.check('the sample has the size asked', law[1] == size)
    def on_return(self, ctx, v):
        Exact.on_return(self, ctx, v)
        if self.world == PROJ: ctx.check('sizes other than the rank are refused', ctx.ghost['size'] == ctx.ghost['w']['rank'])
    def on_raise(self, ctx, e):
        Exact.on_raise(self, ctx, e)
        if e.kind != 'ValueError' or self.unsupported(): return
        g, a = ctx.ghost, ctx.ghost['self'].attrs
        if self.mode in ('vfx', 'alpha') or e.msg == 'size above the rank' or e.msg == 'mode not supported by this sampler': return
        ctx.check('refused only when the size is not the rank of a projection kernel', z3.And(self.world == PROJ, g['size'] != g['w']['rank']))

class Mcmc(State):
    target, title, needs_L = 'dppy.finite_dpps:FiniteDPP.sample_mcmc', 'MCMC sampling', True
    scenarios = tuple((s, m) for s in SOURCES for m in ('AED', 'AD', 'E', 'zonotope'))
    def setup(self, ctx):
        self.source, self.mode = self.scenario
        w = self.world_setup(ctx); o = self.instance(ctx)
        p = {'random_state': Rng(), 'nb_iter': z3.Int('nb_iter')}
        g = ctx.ghost
        if self.mode == 'E' and (self.world == PROJ or ctx.decide(2, 'size')):
            p['size'] = g['size'] = z3.Int('size'); ctx.assume(p['size'] >= 1)
        g['params'] = dict(p)
        self.target_of(ctx)
        return self.call(ctx, o, p)
    def call(self, ctx, o, p): return [o, self.mode], dict(p)
    def target_of(self, ctx):
        if self.mode == 'E': t = 'K' if self.world == PROJ else 'L'
        elif self.mode in ('AED', 'AD'): t = None if self.world == PROJ else 'L'
        else: t = None
        ctx.ghost['target'] = t
    def refused(self):
        if self.mode == 'zonotope': return self.source != 'A_zono'
        return self.world == PROJ and self.mode != 'E'
    def on_return(self, ctx, v):
        g = ctx.ghost
        if self.refused(): ctx.check('unsupported combinations are refused', False); return
        if self.mode == 'E' and self.world == PROJ: ctx.check('sizes other than the rank are refused', g['size'] == g['w']['rank'])
        self.invariant(ctx, g['self'])
        if not self.law: return
        mine = [x for l, x in g['appended'] if l is g['samples']]
        ctx.check('exactly one entry is recorded', len(g['appended']) == 1 and len(mine) == 1 and g['self'].attrs.get('list_of_samples') is g['samples'])
        ch = mine[0] if mine else None
        ctx.check('the chain is recorded', isinstance(ch, Chain))
        ctx.check('the last state of the chain is returned', isinstance(v, Sample) and v.law == ('last', ch))
    def on_raise(self, ctx, e):
        g = ctx.ghost
        if e.kind == 'ValueError' and (self.refused() or self.mode == 'E' and self.world == PROJ):
            if not self.refused(): ctx.check('refused only when the size is not the rank', g['size'] != g['w']['rank'])
            if self.law: ctx.check('nothing is recorded when the call is refused', not g['appended'])
            self.invariant(ctx, g['self']); return
        State.on_raise(self, ctx, e)

class McmcK(Mcmc):
    target, title = 'dppy.finite_dpps:FiniteDPP.sample_mcmc_k_dpp', 'MCMC sampling of a k-DPP'
    scenarios = tuple((s, 'E') for s in SOURCES)
    def setup(self, ctx):
        self.source, self.mode = self.scenario
        w = self.world_setup(ctx); o = self.instance(ctx)
        g = ctx.ghost
        size = g['size'] = z3.Int('size'); ctx.assume(size >= 1)
        p = {'random_state': Rng(), 'nb_iter': z3.Int('nb_iter')}
        g['params'] = dict(p, size=size)
        self.target_of(ctx)
        return [o, size], p

class Flush(State):
    target, title = 'dppy.finite_dpps:FiniteDPP.flush_samples', 'flushing'
    scenarios = tuple(SOURCES)
    def setup(self, ctx):
        self.source = self.scenario
        self.world_setup(ctx)
        return [self.instance(ctx)], {}
    def on_return(self, ctx, v):
        o = ctx.ghost['self']
        self.invariant(ctx, o)
        l = o.attrs.get('list_of_samples')
        if self.law: ctx.check('the list of samples is emptied', isinstance(l, Lst) and l.concrete and not l.items)
