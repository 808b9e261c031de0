from .lib import *
import copy, warnings
def run(h):
    from dppy import utils as u
    from dppy.finite_dpps import FiniteDPP
    r = h.rng('x')
    def verdict(name, f, a, ok, **kw):
        def go():
            a0 = copy.deepcopy(a)
            try: out = f(a, **kw)
            except ValueError:
                need(not ok, 'a valid array is refused'); return
            need(ok, 'an invalid array is accepted'); need(out is a, 'the array returned is not the one given')
            need(np.array_equal(a, a0, equal_nan=True), 'the array was modified')
        return h.case(name, go, dict(array=a, kw=kw))
    fs = [u.is_square, u.is_symmetric, u.is_projection, u.is_orthonormal_columns, u.is_equal_to_O_or_1, u.is_in_01, u.is_geq_0, u.is_full_row_rank]
    for f in fs: h.case('none/' + f.__name__, lambda: need(f(None) is None, 'None is not passed through'))
    for shp in ((1, 1), (3, 3), (20, 20), (25, 25)): verdict('square/ok', u.is_square, r.randn(*shp), True)
    for shp in ((2, 3), (3, 2), (4,), (2, 2, 2), (1, 2), (25, 24)): verdict('square/bad', u.is_square, r.randn(*shp), False)
    for n in (1, 2, 5, 19, 20, 21, 30):
        A = psd(r, n); verdict('symmetric/ok', u.is_symmetric, A, True)
        m = min(n, 20)
        for i, j in {(0, 1), (m - 1, 0), (m - 1, m - 2), (m // 2, m // 3)}:
            if i != j and 0 <= j < m and i < m:
                for e in (1e-3, 1.0): B = A.copy(); B[i, j] += e * (1 + abs(B[i, j])); verdict('symmetric/bad', u.is_symmetric, B, False)
        B = A + 1e-13 * r.randn(n, n); verdict('symmetric/tolerance', u.is_symmetric, B, True)
        P = proj(r, n, (n + 1) // 2)
        for f in (u.is_projection, u.is_symmetric): verdict('projection/ok', f, P, True)
        verdict('projection/ok', u.is_projection, np.eye(n), True); verdict('projection/ok', u.is_projection, np.zeros((n, n)), True)
        for j in {0, m - 1, m // 2}:
            B = P.copy(); B[j, j] += 0.05 if P[j, j] > 0.6 or P[j, j] < 0.4 else 0.3; verdict('projection/bad', u.is_projection, B, abs((B[:, j] ** 2).sum() - B[j, j]) < 1e-8)
        if n > 1: verdict('projection/bad', u.is_projection, 0.9 * P, False); verdict('projection/bad', u.is_projection, 2 * P, False); verdict('projection/bad', u.is_projection, -P, False)
        Q = orth(r, n, n)
        for k in {1, n, (n + 1) // 2, min(n, 4), min(n, 6)}:
            V = Q[:, :k]; verdict('orthonormal/ok', u.is_orthonormal_columns, V, True); w = min(k, 5)
            for j in range(w):
                B = V.copy(); B[:, j] *= 1.01; verdict('orthonormal/norm', u.is_orthonormal_columns, B, False)
                if j: B = V.copy(); B[:, j] = (V[:, j] + 0.01 * V[:, j - 1]) / math.sqrt(1.0001); verdict('orthonormal/angle', u.is_orthonormal_columns, B, False)
        for d in range(1, n + 1):
            A = r.randn(d, n); verdict('rank/ok', u.is_full_row_rank, A, True)
            if d > 1: B = A.copy(); B[-1] = B[0] - 2 * B[d // 2] if d > 2 else B[0]; verdict('rank/bad', u.is_full_row_rank, B, False)
            B = A.copy(); B[d // 2] = 0; verdict('rank/zero row', u.is_full_row_rank, B, False)
        verdict('rank/too many rows', u.is_full_row_rank, r.randn(n + 1, n), False)
    t = 1e-8
    vals = {'01': [([0., 1., 1.], 1, 1, 1), ([0.5], 0, 1, 1), ([0.3, 0.999, 0.], 0, 1, 1), ([-1e-3, 1.], 0, 0, 0), ([1.0 + 1e-3, 0.], 0, 0, 1), ([0.5 * t, 1 - 0.5 * t, 1 + 0.5 * t, -0.5 * t], 1, 1, 1), ([1 + 3 * t, 0.], 0, 0, 1), ([-3 * t], 0, 0, 0), ([3 * t], 0, 1, 1), ([1 - 3 * t], 0, 1, 1), ([2., 1e6], 0, 0, 1), ([-1., -2.], 0, 0, 0), ([0, 1, 1, 0], 1, 1, 1), ([2.], 0, 0, 1), ([0.] * 40 + [0.5], 0, 1, 1), ([1.] * 40 + [-0.5], 0, 0, 0), ([0.] * 40 + [1.5], 0, 0, 1), ([], 1, 1, 1), ([float('nan')], 0, 0, 0), ([1., -1.], 0, 0, 0)]}
    for v, a, b, c in vals['01']:
        for f, ok in ((u.is_equal_to_O_or_1, a), (u.is_in_01, b), (u.is_geq_0, c)): verdict(f.__name__ + '/x', f, np.array(v), bool(ok))
    # constructor
    def make(ok, kt, pr, ps, name):
        def go():
            ps0 = copy.deepcopy(ps)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try: d = FiniteDPP(kt, pr, **ps)
                except ValueError:
                    need(not ok, 'a valid parametrisation is refused'); return
            need(ok, 'an invalid parametrisation is accepted')
            for k, v in ps.items():
                if isinstance(v, np.ndarray): need(np.array_equal(v, ps0[k]), '%s was modified', k)
            for k, att in (('K', 'K'), ('L', 'L'), ('A_zono', 'A_zono')):
                if k in ps: need(getattr(d, att) is ps[k], 'the attribute %s is not the array given', att)
        h.case('constructor/' + name, go, dict(kernel_type=kt, projection=pr, params=ps))
    for n in (2, 4, 7):
        Q = orth(r, n, n); K = corr(r, n); P = proj(r, n, (n + 1) // 2); L = psd(r, n); ns = r.randn(n, n); A = r.randn(n - 1, n); e = r.uniform(0.1, 0.9, n); k = np.zeros(n); k[0] = 1.0
        X = r.randn(n, 2); ev = lambda X, Y=None: np.atleast_2d(X).dot(np.atleast_2d(X if Y is None else Y).T)
        C, Lk = 'correlation', 'likelihood'
        for ok, kt, pr, ps in [
            (1, C, False, dict(K=K)), (1, C, True, dict(K=P)), (1, C, False, dict(K=P)), (0, C, True, dict(K=K)), (0, C, False, dict(K=ns)), (0, C, False, dict(K=A)),
            (1, C, False, dict(K_eig_dec=(e, Q))), (1, C, True, dict(K_eig_dec=(k, Q))), (0, C, True, dict(K_eig_dec=(e, Q))), (0, C, False, dict(K_eig_dec=(e + 1, Q))), (0, C, False, dict(K_eig_dec=(-e, Q))), (0, C, False, dict(K_eig_dec=(e, 1.1 * Q))), (0, C, False, dict(K_eig_dec=(e, ns))),
            (1, C, True, dict(A_zono=A)), (1, C, False, dict(A_zono=A)), (0, C, True, dict(A_zono=np.vstack([A, A[:1], A[:1]]))), (0, C, True, dict(A_zono=np.vstack([A[:1], A[:1]]))),
            (1, Lk, False, dict(L=L)), (0, Lk, False, dict(L=ns)), (1, Lk, True, dict(L=P)), (0, Lk, True, dict(L=L)), (0, Lk, False, dict(L=A)),
            (1, Lk, False, dict(L_eig_dec=(3 * e, Q))), (0, Lk, False, dict(L_eig_dec=(-e, Q))), (0, Lk, False, dict(L_eig_dec=(e, ns))), (1, Lk, True, dict(L_eig_dec=(k, Q))), (0, Lk, True, dict(L_eig_dec=(e, Q))),
            (1, Lk, False, dict(L_gram_factor=A)), (1, Lk, False, dict(L_gram_factor=r.randn(n + 1, n))),
            (1, Lk, False, dict(L_eval_X_data=(ev, X))), (0, Lk, False, dict(L_eval_X_data=(3.0, X))), (0, Lk, False, dict(L_eval_X_data=(ev, X[:, 0]))), (0, Lk, False, dict(L_eval_X_data=(ev, np.zeros((0, 2))))),
            (0, C, False, dict(L=L)), (0, Lk, False, dict(K=K)), (0, C, False, {}), (0, Lk, False, {}), (0, Lk, False, dict(A_zono=A)), (0, C, False, dict(L_eval_X_data=(ev, X))), (0, 'kernel', False, dict(K=K)), (0, None, False, dict(L=L)), (0, C, 1, dict(K=P)), (0, C, 'yes', dict(K=P)), (0, C, None, dict(K=K)), (0, Lk, 0, dict(L=L))]:
            make(bool(ok), kt, pr, ps, '%s %s %s' % (kt, pr, sorted(ps)))
        def go():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                need(FiniteDPP(C, False, A_zono=A).projection is True, 'A_zono must define a projection DPP')
        h.case('constructor/A_zono switch', go)
    h.raises('x_0', ValueError, lambda: __import__('dppy.exotic_dpps', fromlist=['x']).VirtualDescentProcess(-1))
