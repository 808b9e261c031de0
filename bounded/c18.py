from .lib import *
from .fin import *
import copy
def same_state(a, b): return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]
def flat(o, depth=0):
    """value of an output as nested tuples"""
    import networkx as nx
    if isinstance(o, nx.Graph): return ('graph', tuple(sorted(map(int, o.nodes()))), tuple(sorted(tuple(sorted(map(int, e))) for e in o.edges())))
    if isinstance(o, np.ndarray): return ('array', o.shape, tuple(np.asarray(o).ravel().tolist()))
    if isinstance(o, dict): return ('dict',) + tuple((k, flat(o[k])) for k in sorted(o))
    if hasattr(o, '_fields'): return tuple(flat(v) for v in o if not callable(v))
    if isinstance(o, (list, tuple)): return tuple(flat(v) for v in o)
    if isinstance(o, np.generic): return o.item()
    if callable(o): return 'callable'
    if hasattr(o, '__dict__') and depth < 3: return tuple((k, flat(v, depth + 1)) for k, v in sorted(vars(o).items()))
    return o
def eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float): return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * (1 + abs(a))
    return a == b
def run(h):
    import networkx as nx
    from dppy import exact_sampling as es, mcmc_sampling as mc, intermediate_sampling as im, bless as bl, exotic_dpps as xd, exotic_dpps_core as xc
    from dppy import random_matrices as rm, beta_ensembles as be, beta_ensemble_polynomial_potential as bp, beta_ensemble_polynomial_potential_core as pc, multivariate_jacobi_ope as jo
    from dppy.finite_dpps import FiniteDPP
    r = h.rng('x')
    from dppy.utils import check_random_state as crs
    T = []           # (name, make: () -> arguments, call: (arguments, random_state) -> output)
    def add(name, make, call): T.append((name, make, call))
    n = 7
    Kp, V, L, K = proj(r, n, 4), orth(r, n, 4), psd(r, n), corr(r, n)
    Kns = 0.1 * r.randn(n, n) + 0.5 * np.eye(n)
    for m in ('GS', 'Chol', 'Schur'):
        for s in (None, 2): add('kernel %s %s' % (m, s), lambda: [Kp.copy()], lambda a, rs, m=m, s=s: es.proj_dpp_sampler_kernel(a[0], m, size=s, random_state=rs))
    add('Chol complex', lambda P=proj(r, 5, 3, True): [P.copy()], lambda a, rs: es.proj_dpp_sampler_kernel(a[0], 'Chol', random_state=rs))
    for m in ('GS', 'GS_bis', 'KuTa12'):
        for s in (None, 2): add('eig %s %s' % (m, s), lambda: [V.copy()], lambda a, rs, m=m, s=s: es.proj_dpp_sampler_eig(a[0], m, size=s, random_state=rs))
    for f in ('proj_dpp_sampler_kernel_Chol', 'proj_dpp_sampler_kernel_GS', 'proj_dpp_sampler_kernel_Schur'): add(f, lambda: [Kp.copy()], lambda a, rs, f=f: getattr(es, f)(a[0], random_state=rs))
    for f in ('proj_dpp_sampler_eig_GS', 'proj_dpp_sampler_eig_GS_bis', 'proj_dpp_sampler_eig_KuTa12'): add(f, lambda: [V.copy()], lambda a, rs, f=f: getattr(es, f)(a[0], random_state=rs))
    add('generic', lambda: [K.copy()], lambda a, rs: es.dpp_sampler_generic_kernel(a[0], random_state=rs))
    add('generic ns', lambda: [Kns.copy()], lambda a, rs: es.dpp_sampler_generic_kernel(a[0], random_state=rs))
    ev, U = la.eigh(L)
    add('selector', lambda: [ev / (1 + ev), U.copy()], lambda a, rs: es.dpp_eig_vecs_selector(a[0], a[1], random_state=rs))
    add('k selector', lambda: [ev.copy(), U.copy()], lambda a, rs: es.k_dpp_eig_vecs_selector(a[0], a[1], 3, random_state=rs))
    add('k selector E', lambda: [ev.copy(), U.copy(), es.elementary_symmetric_polynomials(ev, 5)], lambda a, rs: es.k_dpp_eig_vecs_selector(a[0], a[1], 3, a[2], random_state=rs))
    for m in ('AED', 'AD', 'E'):
        for init in (None, [0, 3], [0, 1, 2, 3, 4, 5, 6], []):
            if m == 'E' and init == []: continue
            add('mcmc %s %s' % (m, init), lambda init=init: [L.copy(), copy.copy(init)], lambda a, rs, m=m: mc.dpp_sampler_mcmc(a[0], m, s_init=a[1], nb_iter=15, random_state=rs))
    add('mcmc E size', lambda: [L.copy()], lambda a, rs: mc.dpp_sampler_mcmc(a[0], 'E', size=3, nb_iter=15, random_state=rs))
    for f in ('add_exchange_delete_sampler', 'add_delete_sampler', 'basis_exchange_sampler'): add(f, lambda: [L.copy(), [1, 4]], lambda a, rs, f=f: getattr(mc, f)(a[0], s_init=a[1], nb_iter=12, random_state=rs))
    add('init AED', lambda: [L.copy()], lambda a, rs: mc.initialize_AED_sampler(a[0], random_state=rs))
    add('init E', lambda: [L.copy()], lambda a, rs: mc.initialize_AD_and_E_sampler(a[0], 2, random_state=rs))
    X = r.randn(14, 2)
    for fast in (False, True):
        L_ev = (LinDiag if fast else Lin)(0.3, True)
        add('bless %s' % fast, lambda: [X.copy()], lambda a, rs, e=L_ev: bl.bless(a[0], e, 0.1, 8.0, rs, verbose=False))
        add('bless_size %s' % fast, lambda: [X.copy()], lambda a, rs, e=L_ev: bl.bless_size(a[0], e, 4.0, 8.0, rs, verbose=False))
        D0 = bl.bless(X, L_ev, 0.5, 8.0, np.random.RandomState(3), verbose=False)
        add('reduce_lambda %s' % fast, lambda: [X.copy(), copy.deepcopy(D0)], lambda a, rs, e=L_ev: bl.reduce_lambda(a[0], e, a[1], 0.2, crs(rs)))
        add('vfx pre %s' % fast, lambda: [X.copy()], lambda a, rs, e=L_ev: im.vfx_sampling_precompute_constants(a[0], e, crs(rs), desired_expected_size=3, rls_oversample_dppvfx=4.0, rls_oversample_bless=4.0, verbose=False))
        add('alpha pre %s' % fast, lambda: [X.copy()], lambda a, rs, e=L_ev: im.alpha_dpp_sampling_precompute_constants(a[0], e, crs(rs), desired_expected_size=3, rls_oversample_alphadpp=4.0, rls_oversample_bless=4.0, verbose=False))
        vi = im.vfx_sampling_precompute_constants(X, L_ev, np.random.RandomState(5), desired_expected_size=3, rls_oversample_dppvfx=4.0, rls_oversample_bless=4.0, verbose=False)
        ai = im.alpha_dpp_sampling_precompute_constants(X, L_ev, np.random.RandomState(5), desired_expected_size=3, rls_oversample_alphadpp=4.0, rls_oversample_bless=4.0, verbose=False)
        add('vfx loop %s' % fast, lambda: [X.copy(), copy.deepcopy(vi)], lambda a, rs, e=L_ev: im.vfx_sampling_do_sampling_loop(a[0], e, a[1], crs(rs), verbose=False))
        add('alpha loop %s' % fast, lambda: [X.copy(), copy.deepcopy(ai)], lambda a, rs, e=L_ev: im.alpha_dpp_sampling_do_sampling_loop(a[0], e, a[1], crs(rs), verbose=False))
        add('dpp_vfx %s' % fast, lambda: [X.copy()], lambda a, rs, e=L_ev: es.dpp_vfx_sampler(None, a[0], e, random_state=rs, desired_expected_size=3, rls_oversample_dppvfx=4.0, rls_oversample_bless=4.0, verbose=False))
        add('dpp_vfx cached %s' % fast, lambda: [X.copy(), copy.deepcopy(vi)], lambda a, rs, e=L_ev: es.dpp_vfx_sampler(a[1], a[0], e, random_state=rs, desired_expected_size=3, rls_oversample_dppvfx=4.0, rls_oversample_bless=4.0, verbose=False)[0])
        add('alpha_dpp %s' % fast, lambda: [X.copy()], lambda a, rs, e=L_ev: es.alpha_dpp_sampler(None, a[0], e, random_state=rs, desired_expected_size=3, rls_oversample_alphadpp=4.0, rls_oversample_bless=4.0, verbose=False)[0])
        add('k_vfx %s' % fast, lambda: [X.copy()], lambda a, rs, e=L_ev: es.k_dpp_vfx_sampler(3, None, a[0], e, random_state=rs, rls_oversample_dppvfx=4.0, rls_oversample_bless=4.0, verbose=False)[0])
        add('k_alpha %s' % fast, lambda: [X.copy()], lambda a, rs, e=L_ev: es.alpha_k_dpp_sampler(3, None, a[0], e, random_state=rs, rls_oversample_alphadpp=4.0, rls_oversample_bless=4.0, verbose=False)[0])
    for which in ALL:
        kt, pr, ps, K_, L_ = params(r, 6, which)
        rank = int(round(np.trace(K_)))
        new = lambda kt=kt, pr=pr, ps=ps: [copy.deepcopy(ps), kt, pr]
        mk = lambda a: FiniteDPP(a[1], a[2], **a[0])
        for m in ('GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur') + (('vfx', 'alpha') if 'eval' in which else ()):
            kw = dict(rls_oversample_dppvfx=4.0, rls_oversample_alphadpp=4.0, rls_oversample_bless=4.0, verbose=False) if m in ('vfx', 'alpha') else {}
            def go(a, rs, m=m, kw=kw):
                d = mk(a); d.sample_exact(m, random_state=rs, **kw); return d.list_of_samples
            add('FiniteDPP %s %s' % (which, m), new, go)
            def go(a, rs, m=m, kw=kw, L_=L_, rank=rank):
                d = mk(a); k = rank if L_ is None else 2
                d.sample_exact_k_dpp(k, m, random_state=rs, **kw)
                return d.list_of_samples
            add('FiniteDPP k %s %s' % (which, m), new, go)
        for m in ('AED', 'AD', 'E'):
            def go(a, rs, m=m, rank=rank):
                d = mk(a); d.sample_mcmc(m, size=rank, nb_iter=8, random_state=rs); return d.list_of_samples
            add('FiniteDPP mcmc %s %s' % (which, m), new, go)
        def go(a, rs, L_=L_, rank=rank):
            d = mk(a); d.sample_mcmc_k_dpp(rank if L_ is None else 2, nb_iter=8, random_state=rs); return d.list_of_samples
        add('FiniteDPP mcmc k %s' % which, new, go)
    g = nx.Graph([(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (3, 4)])
    for m in ('Wilson', 'Aldous-Broder', 'GS', 'Schur', 'Chol'):
        for root in (None, 0, 3):
            def go(a, rs, m=m, root=root):
                u = xd.UST(a[0]); u.sample(m, root=root, random_state=rs); return u.list_of_samples
            add('UST %s %s' % (m, root), lambda: [copy.deepcopy(g)], go)
    nb = [sorted(g.neighbors(v)) for v in range(5)]
    for root in (None, 0, 2):
        for f in ('ust_sampler_wilson', 'ust_sampler_aldous_broder'): add('%s %s' % (f, root), lambda: [copy.deepcopy(nb)], lambda a, rs, f=f, root=root: getattr(xc, f)(a[0], root=root, random_state=rs))
    add('permutation', lambda: [12], lambda a, rs: xc.uniform_permutation(a[0], random_state=rs))
    for cls, a0 in ((xd.CarriesProcess, (5,)), (xd.DescentProcess, ()), (xd.VirtualDescentProcess, (0.4,))):
        def go(a, rs, cls=cls):
            p = cls(*a); p.sample(size=20, random_state=rs); return p.list_of_samples
        add(cls.__name__, lambda a0=a0: list(a0), go)
    def go(a, rs):
        p = xd.PoissonizedPlancherel(a[0]); p.sample(random_state=rs); return p.list_of_samples + [y.tolist() for y in p.list_of_young_diag]
    add('Plancherel', lambda: [30], go)
    for b in (1, 2, 4):
        add('hermite full %d' % b, lambda: [], lambda a, rs, b=b: rm.hermite_sampler_full(6, b, rs)); add('laguerre full %d' % b, lambda: [], lambda a, rs, b=b: rm.laguerre_sampler_full(8, 6, b, rs))
        add('jacobi full %d' % b, lambda: [], lambda a, rs, b=b: rm.jacobi_sampler_full(8, 7, 6, b, rs))
        for hm in ('QR', 'Hermite'): add('circular full %d %s' % (b, hm), lambda: [], lambda a, rs, b=b, hm=hm: rm.circular_sampler_full(6, b, haar_mode=hm, random_state=rs))
    add('ginibre full', lambda: [], lambda a, rs: rm.ginibre_sampler_full(6, rs))
    for b in (0, 0.5, 1, 2, 4):
        if b: 
            add('normal tridiag %s' % b, lambda: [], lambda a, rs, b=b: rm.mu_ref_normal_sampler_tridiag(beta=b, size=6, random_state=rs)); add('gamma tridiag %s' % b, lambda: [], lambda a, rs, b=b: rm.mu_ref_gamma_sampler_tridiag(beta=b, size=6, random_state=rs))
            add('beta tridiag %s' % b, lambda: [], lambda a, rs, b=b: rm.mu_ref_beta_sampler_tridiag(1.5, 0.8, beta=b, size=6, random_state=rs))
        if b in (1, 2, 4): add('quindiag %s' % b, lambda: [], lambda a, rs, b=b: rm.mu_ref_unif_unit_circle_sampler_quindiag(beta=b, size=6, random_state=rs))
        for cls in (be.HermiteEnsemble, be.LaguerreEnsemble, be.JacobiEnsemble, be.CircularEnsemble, be.GinibreEnsemble):
            if cls is be.CircularEnsemble and b == 0.5: continue
            for meth in ('sample_banded_model', 'sample_full_model'):
                if meth == 'sample_full_model' and b == 0.5: continue
                if cls is be.GinibreEnsemble and (b != 2 or meth == 'sample_banded_model'): continue
                def go(a, rs, cls=cls, meth=meth, b=b):
                    e = cls(b); kw = dict(size_N=6)
                    if meth == 'sample_full_model' and cls is be.JacobiEnsemble: kw.update(size_M1=8, size_M2=7)
                    getattr(e, meth)(random_state=rs, **kw); return e.list_of_samples
                add('%s %s %s' % (cls.__name__, meth, b), lambda: [], go)
    for Vc in ([1, 0, 0], [0.25, 0, 1.0, 0, 0], [1 / 6, 0, 0, 0, 1, 0, 0]):
        for exact in (False, True):
            if exact and len(Vc) > 5: continue
            add('polynomial %s %s' % (len(Vc) - 1, exact), lambda Vc=Vc: [np.poly1d(Vc)], lambda a, rs, x=exact: bp.BetaEnsemblePolynomialPotential(2.0, a[0]).sample_mcmc(N=4, nb_gibbs_passes=2, sample_exact_cond=x, nb_mala_steps=5, random_state=rs))
    add('polynomial constant', lambda: [np.poly1d([1.0, 0, 3.0])], lambda a, rs: bp.BetaEnsemblePolynomialPotential(2.0, a[0]).sample_mcmc(N=3, nb_gibbs_passes=1, random_state=rs))
    for s, P in ((None, [1.0, 0, 1.0, 0.2, 0]), (0.5, [1.0, 2.0, 0]), (1.0, [1.0, 2.0, 0]), (3.0, [1.0, 2.0, 0]), (2.0, [2.0, 0])):
        add('quartic %s' % s, lambda P=P: [np.poly1d(P)], lambda a, rs, s=s: pc.sampler_exact_convex_quartic(a[0], shape=s, random_state=rs))
    add('mala', lambda: [np.poly1d([1.0, 0, 0])], lambda a, rs: pc.sampler_mala(0.3, a[0], sigma=0.3, nb_steps=9, random_state=rs))
    for ab in ([[0.3, 0.1]], [[0.1, -0.2], [0.4, 0.0]]):
        for t in (True, False):
            add('jacobi ope %d %s' % (len(ab), t), lambda ab=ab: [np.array(ab)], lambda a, rs, t=t: jo.MultivariateJacobiOPE(5, a[0]).sample(random_state=rs, tridiag_1D=t))
        add('jacobi proposal %d' % len(ab), lambda ab=ab: [np.array(ab)], lambda a, rs: jo.MultivariateJacobiOPE(5, a[0]).sample_chain_rule_proposal(random_state=rs))
    def run1(make, call, rs, gseed):
        args = make(); before = flat(args)
        np.random.seed(gseed); np.random.rand(gseed % 7); np.random.randn(gseed % 3)
        g0 = np.random.get_state()
        try: out = ('value', flat(call(args, rs)))
        except (ValueError, FloatingPointError) as e: out = ('raises', type(e).__name__)
        g1 = np.random.get_state()
        need(same_state(g0, g1), 'the global generator was advanced')
        need(flat(args) == before, 'an argument was modified')
        return out
    for name, make, call in T:
        def go(make=make, call=call):
            for seed in range(2 if h.quick else 8):
                o1 = run1(make, call, seed, 1); o2 = run1(make, call, seed, 12)
                need(eq(o1, o2), 'seed %d: two outputs, %s and %s', seed, str(o1)[:250], str(o2)[:250])
                ra, rb = np.random.RandomState(seed), np.random.RandomState(seed)
                o3 = run1(make, call, ra, 5); o4 = run1(make, call, rb, 31)
                need(eq(o1, o3) and eq(o1, o4), 'RandomState(%d) and seed %d give different outputs, %s and %s', seed, seed, str(o3)[:250], str(o1)[:250])
                need(same_state(ra.get_state(), rb.get_state()), 'equal generators end in different states')
                o5 = run1(make, call, np.int64(seed), 3); need(eq(o1, o5), 'np.int64 seed')
        h.case('repro/' + name, go, dict(sampler=name), 60)
    def go():
        from dppy.utils import check_random_state as c
        s = np.random.RandomState(3)
        need(c(s) is s, 'a RandomState is returned as is'); need(same_state(c(3).get_state(), s.get_state()), 'an integer seeds a RandomState')
        need(c(None) is np.random.mtrand._rand and c(np.random) is np.random.mtrand._rand, 'None is the global generator')
        for bad in ('a', 1.5, [1], np.array([1, 2])):
            try: c(bad)
            except ValueError: continue
            raise Fail('%r accepted' % (bad,))
    h.case('check_random_state/x', go)
    # with no random state, the global generator is the source
    for name, make, call in T:
        if name.split()[0] in ('kernel', 'eig', 'generic', 'mcmc', 'UST', 'permutation', 'normal', 'selector'):
            def go(make=make, call=call):
                outs = []
                for k in range(2):
                    np.random.seed(4); outs.append(flat(call(make(), None)))
                need(eq(outs[0], outs[1]), 'np.random.seed does not determine the output without random_state')
            h.case('global/' + name, go)
