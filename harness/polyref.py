"""Independent reference for the quadratic polynomial machinery (documented basis order:
1, x_1..x_n, x_1^2/2..x_n^2/2, then the subdiagonals x_{i+k} x_i, k = 1, 2, ...)."""
import numpy as np


def nq(n):
    return (n + 1) * (n + 2) // 2


def exps(n):
    """list of (i, j) pairs of the quadratic terms in order"""
    out = [(i, i) for i in range(n)]
    for k in range(1, n):
        for i in range(n - k):
            out.append((i + k, i))
    return out


def phi(z, q):
    z = np.asarray(z, float).ravel()
    n = len(z)
    v = [1.0] + list(z)
    for (i, j) in exps(n):
        v.append(.5 * z[i] * z[i] if i == j else z[i] * z[j])
    return np.array(v[:q])


def evalp(P, z):
    P = np.asarray(P, float).ravel()
    return float(P @ phi(z, len(P)))


def grad_hess(P, z, n):
    P = np.asarray(P, float).ravel()
    g = np.zeros(n)
    H = np.zeros((n, n))
    for i in range(n):
        if 1 + i < len(P):
            g[i] = P[1 + i]
    for k, (i, j) in enumerate(exps(n)):
        if n + 1 + k < len(P):
            c = P[n + 1 + k]
            if i == j:
                H[i, i] = c
            else:
                H[i, j] = H[j, i] = c
    return g + H @ np.asarray(z, float).ravel(), H


def design(Yz, q):
    return np.array([phi(Yz[:, i], q) for i in range(Yz.shape[1])])      # p x q


def reference_model(Yz, f, model):
    """coefficients in scaled coordinates; model 0 subbasis, 1 min Frobenius norm, 2 min l2 norm, 3 regression"""
    n, p = Yz.shape
    q = nq(n)
    if model == 3 and p < q:
        model = 2
    if model == 0:
        Z = design(Yz, p)
        return np.linalg.solve(Z, f), np.linalg.cond(Z)
    if model == 1:
        if p == n + 1 or p == q:
            Z = design(Yz, p)
            return np.linalg.solve(Z, f), np.linalg.cond(Z)
        Z = design(Yz, q)
        ML, MQ = Z[:, :n + 1], Z[:, n + 1:]
        K = np.block([[MQ @ MQ.T, ML], [ML.T, np.zeros((n + 1, n + 1))]])
        ma = np.linalg.solve(K, np.concatenate([f, np.zeros(n + 1)]))
        return np.concatenate([ma[p:], MQ.T @ ma[:p]]), np.linalg.cond(K)
    Z = design(Yz, q)
    s = np.linalg.svd(Z, compute_uv=False)
    return np.linalg.lstsq(Z, f, rcond=None)[0], s[0] / s[-1]


def shift(Y):
    """scaled copy of the set as the package documents it: centred on the first point, divided by the largest distance"""
    D = Y - Y[:, [0]]
    s = np.max(np.linalg.norm(D, axis=0))
    return D / s, s


def frame(Y, sh):
    """coordinates of the models: shifted and scaled copy, scale, base point"""
    if sh:
        Yz, s = shift(Y)
        return Yz, s, Y[:, 0].copy()
    return Y.copy(), 1.0, np.zeros(Y.shape[0])


def unshiftable(Y, r):
    """the set moved near the origin and scaled to diameter one, for models in the original variables"""
    D = Y - Y[:, [0]]
    return D / np.max(np.abs(D)) + np.array([[r.choice([0, 0, 1, -2])] for _ in range(Y.shape[0])])
