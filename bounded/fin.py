"""parametrisations of finite DPPs with their reference kernels (shared by C07, C08, C18)"""
from .lib import *
class Lin:
    """L_eval: positive definite kernel function with and without a fast diagonal"""
    def __init__(self, eps, fast): self.eps = eps; self.fast = fast
    def __call__(self, X, Y=None):
        X = np.atleast_2d(X); Y2 = X if Y is None else np.atleast_2d(Y)
        D = ((X[:, None, :] - Y2[None, :, :]) ** 2).sum(-1)
        return 0.8 * np.exp(-D / 2) + self.eps * (X.dot(Y2.T))
class LinDiag(Lin):
    def diag(self, X): return 0.8 + self.eps * (X ** 2).sum(1)
def params(r, n, which):
    """(kernel_type, projection, params, K or None, L or None)"""
    U = orth(r, n, n)
    k = max(1, n // 2)
    if which == 'K': 
        K = (U * r.uniform(0.1, 0.9, n)).dot(U.T); K = (K + K.T) / 2
        return 'correlation', False, dict(K=K), K, K.dot(la.inv(np.eye(n) - K))
    if which == 'K_eig_dec':
        e = r.uniform(0.1, 0.9, n); K = (U * e).dot(U.T)
        return 'correlation', False, dict(K_eig_dec=(e, U)), K, K.dot(la.inv(np.eye(n) - K))
    if which == 'K_eig_dec zeros':
        e = r.uniform(0.1, 0.9, n); e[0] = 0.0; K = (U * e).dot(U.T)
        return 'correlation', False, dict(K_eig_dec=(e, U)), K, K.dot(la.inv(np.eye(n) - K))
    if which == 'K proj':
        V = U[:, :k]; K = V.dot(V.T); return 'correlation', True, dict(K=K), K, None
    if which == 'K_eig_dec proj':
        e = np.zeros(n); e[r.permutation(n)[:k]] = 1.0; K = (U * e).dot(U.T)
        return 'correlation', True, dict(K_eig_dec=(e, U)), K, None
    if which == 'K_eig_dec proj thin':
        V = U[:, :k]; return 'correlation', True, dict(K_eig_dec=(np.ones(k), V)), V.dot(V.T), None
    if which == 'A_zono':
        A = r.randn(k, n); return 'correlation', True, dict(A_zono=A), A.T.dot(la.solve(A.dot(A.T), A)), None
    if which == 'L':
        L = psd(r, n) / 2; return 'likelihood', False, dict(L=L), L.dot(la.inv(np.eye(n) + L)), L
    if which == 'L deficient':
        L = psd(r, n, k) / 2; return 'likelihood', False, dict(L=L), L.dot(la.inv(np.eye(n) + L)), L
    if which == 'L_eig_dec':
        e = r.exponential(1, n); L = (U * e).dot(U.T)
        return 'likelihood', False, dict(L_eig_dec=(e, U)), L.dot(la.inv(np.eye(n) + L)), L
    if which == 'L_gram d<N':
        P = r.randn(k, n); L = P.T.dot(P); return 'likelihood', False, dict(L_gram_factor=P), L.dot(la.inv(np.eye(n) + L)), L
    if which == 'L_gram d<N deficient':
        P = np.vstack([r.randn(1, n)] * 2) if n > 2 else r.randn(1, n); L = P.T.dot(P); return 'likelihood', False, dict(L_gram_factor=P), L.dot(la.inv(np.eye(n) + L)), L
    if which == 'L_gram d>=N':
        P = r.randn(n + 1, n); L = P.T.dot(P); return 'likelihood', False, dict(L_gram_factor=P), L.dot(la.inv(np.eye(n) + L)), L
    if which in ('L_eval', 'L_eval diag'):
        X = r.randn(n, 2); ev = (LinDiag if 'diag' in which else Lin)(0.3, True); L = ev(X)
        return 'likelihood', False, dict(L_eval_X_data=(ev, X)), L.dot(la.inv(np.eye(n) + L)), L
    if which == 'L proj':
        V = U[:, :k]; L = V.dot(V.T); return 'likelihood', True, dict(L=L), L / 2, L
    if which == 'L_eig_dec proj':
        e = np.zeros(n); e[r.permutation(n)[:k]] = 1.0; L = (U * e).dot(U.T)
        return 'likelihood', True, dict(L_eig_dec=(e, U)), L / 2, L
ALL = ['K', 'K_eig_dec', 'K_eig_dec zeros', 'K proj', 'K_eig_dec proj', 'K_eig_dec proj thin', 'A_zono', 'L', 'L deficient', 'L_eig_dec', 'L_gram d<N', 'L_gram d<N deficient', 'L_gram d>=N', 'L_eval', 'L_eval diag', 'L proj', 'L_eig_dec proj']
