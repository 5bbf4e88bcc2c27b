"""Reference for the trust-region subproblem: exact minimum of g's + s'Hs/2 over ||s|| <= D by eigen-decomposition."""
import numpy as np


def tr_min(g, H, D):
    w, V = np.linalg.eigh(H)
    c = V.T @ g
    if w[0] > 0:
        z = -c / w
        if np.linalg.norm(z) <= D:
            return float(c @ z + .5 * z @ (w * z))
    big = max(1e-300, float(np.max(np.abs(w))))
    lo = max(0.0, -float(w[0]))
    hi = lo + float(np.linalg.norm(g)) / D + big

    def z(l):
        d = w + l
        return -c / np.where(d > 0, d, 1e-300)
    a, b = lo, hi
    for _ in range(200):
        t = .5 * (a + b)
        if np.linalg.norm(z(t)) > D:
            a = t
        else:
            b = t
    zz = z(b)
    best = float(c @ zz + .5 * zz @ (w * zz)) if np.linalg.norm(zz) <= D * (1 + 1e-12) else 0.0
    # completion along the lowest eigenvector (hard case)
    for base in (zz, np.where(w + lo > 1e-13 * big, -c / np.where(w + lo > 1e-13 * big, w + lo, 1), 0)):
        nz2 = float(base[1:] @ base[1:])
        if nz2 <= D * D:
            for sg in (1, -1):
                y = np.array(base)
                y[0] = sg * np.sqrt(D * D - nz2)
                best = min(best, float(c @ y + .5 * y @ (w * y)))
    return best


def cauchy(g, H, lb, ub, D):
    """best model value found along the projected steepest-descent path inside the box and the ball"""
    best = 0.0
    for t in 10.0 ** np.linspace(-8, 8, 300):
        p = np.clip(-t * g, lb, ub)
        if np.linalg.norm(p) > D:
            break
        best = min(best, float(g @ p + .5 * p @ H @ p))
    return best


def rand_quadratic(r, n, kinds, gexp=(-4, 3), hexp=(-3, 3)):
    """(kind, g, H) with random scales"""
    kind = r.choice(kinds)
    A = np.array([[r.gauss(0, 1) for _ in range(n)] for _ in range(n)])
    g = np.array([r.gauss(0, 1) for _ in range(n)]) * 10 ** r.uniform(*gexp)
    H = (A + A.T) / 2
    if kind == 'spd':
        H = A @ A.T + .1 * np.eye(n)
    elif kind == 'neg':
        H = -A @ A.T
    elif kind == 'singular':
        B = A[:, :max(1, n - 1)]
        H = B @ B.T
    elif kind == 'zero':
        H = 0 * H
    elif kind == 'diag':
        H = np.diag(np.array([r.gauss(0, 1) for _ in range(n)]))
    elif kind == 'illc':
        w, V = np.linalg.eigh(H)
        H = V @ np.diag([10 ** r.uniform(-5, 3) for _ in range(n)]) @ V.T
        H = (H + H.T) / 2
    elif kind in ('hard', 'nearhard'):
        w, V = np.linalg.eigh(H)
        if n > 1:
            g = g - V[:, 0] * (V[:, 0] @ g)
            if kind == 'nearhard':
                g = g + V[:, 0] * 10 ** r.uniform(-14, -6)
    return kind, g, H * 10 ** r.uniform(*hexp)


def box_ball_min(g, H, lb, ub, D, its=300):
    """decrease found by an accelerated projected gradient method for a convex quadratic over the box and the ball (never below the minimum)"""
    L = float(np.linalg.norm(H, 2)) + 1e-300

    def proj(z):
        y = np.clip(z, lb, ub)
        if np.linalg.norm(y) <= D:
            return y
        f = lambda t: np.clip(z / (1 + t), lb, ub)
        lo, hi = 0.0, 1.0
        while np.linalg.norm(f(hi)) > D:
            hi *= 2
        for _ in range(50):
            t = (lo + hi) / 2
            if np.linalg.norm(f(t)) > D:
                lo = t
            else:
                hi = t
        return f(hi)
    x = np.zeros(len(g))
    y, t = x, 1.0
    for _ in range(its):
        z = proj(y - (g + H @ y) / L)
        u = (1 + np.sqrt(1 + 4 * t * t)) / 2
        y = z + (t - 1) / u * (z - x)
        x, t = z, u
    return float(g @ x + .5 * x @ H @ x)
