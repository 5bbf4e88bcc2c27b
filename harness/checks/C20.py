"""Truncated conjugate gradients: inside the ball, truthful exit code, exact solution when claimed, never worse than the Cauchy point."""
import random
import numpy as np

RULE = ('case = random symmetric matrix (positive definite, indefinite, negative, singular, scaled) and right-hand side x radius x iteration limit x '
        'tolerance; non-trivial = every case with non-zero right-hand side; distinct by (kind, exit code, n, seed)')
ASSUMPTIONS = ['symmetric matrices, positive radius']
MIN = {'exit_0': 150, 'exit_1': 150, 'exit_2': 100, 'exit_-1': 20}


def cases(tier, seed):
    n = 2500 if tier == 'quick' else 40000
    return [dict(s=seed * 1000003 + i) for i in range(n)]


def run_case(case, m):
    from sqpdfo.sqpdfo_truncated_cg import sqpdfo_truncated_cg_ as cg
    r = random.Random('C20-%s' % case['s'])
    G = lambda: r.gauss(0, 1)
    n = r.choice([1, 2, 2, 3, 4, 6])
    A = np.array([[G() for _ in range(n)] for _ in range(n)])
    kind = r.choice(['spd', 'spd', 'spd', 'indef', 'neg', 'singular', 'zero'])
    H = (A + A.T) / 2
    if kind == 'spd':
        H = A @ A.T + r.choice([.1, 1.0]) * np.eye(n)
    if kind == 'neg':
        H = -A @ A.T
    if kind == 'singular':
        H = A[:, :max(1, n - 1)] @ A[:, :max(1, n - 1)].T
    if kind == 'zero':
        H = 0 * H
    H = H * 10 ** r.uniform(-2, 2)
    b = np.array([G() for _ in range(n)]) * 10 ** r.uniform(-3, 2)
    if r.random() < .03:
        b = 0 * b
    D = 10 ** r.uniform(-3, 3)
    mx = r.choice([0, 1, 20 * n, 20 * n, 20 * n])
    tol = r.choice([1e-6, 1e-6, 1e-3, 1e-10]) * (1 if r.random() < .5 else float(np.linalg.norm(b)) or 1)
    Hc, bc = H.copy(), b.reshape(-1, 1).copy()
    x, info = cg(Hc, bc, D, mx, tol)
    shp = np.shape(x)
    x = np.asarray(x, float).ravel()
    bn, xn, hn = float(np.linalg.norm(b)), float(np.linalg.norm(x)), float(np.linalg.norm(H, 2))
    q = float(.5 * x @ H @ x - b @ x)
    res = float(np.linalg.norm(H @ x - b))
    d = lambda: 'kind %s n=%d D=%g tol=%g max=%d flag=%r iter=%r |x|=%g residual=%g H=%r b=%r x=%r' % (kind, n, D, tol, mx, info.flag, info.iter, xn, res, H.tolist(), b.tolist(), x.tolist())
    if not m.check(shp == (n, 1) and np.all(np.isfinite(x)), 'shape', d):
        return
    m.check(np.array_equal(Hc, H) and np.array_equal(bc.ravel(), b), 'arguments-modified', d)
    m.ev('exit_%s' % info.flag)
    m.check(info.flag in (-1, 0, 1, 2), 'exit-code', d)
    m.check(xn <= D * (1 + 1e-9), 'outside-ball', d)
    rnd = 1e-9 * (bn + hn * xn)
    if info.flag == 0:
        m.check(res <= tol * (1 + 1e-6) + rnd, 'claimed-precision', d)
        m.check(abs(float(np.ravel(info.prec)[0]) - res) <= 1e-6 * res + rnd, 'reported-precision', lambda: '%s reported %r' % (d(), info.prec))
    elif info.flag in (1, 2):
        m.check(abs(xn - D) <= 1e-7 * D, 'claimed-boundary', d)
    if info.flag == 2:
        m.check(np.linalg.eigvalsh(H)[0] <= 1e-10 * hn, 'claimed-negative-curvature', d)
    if info.flag == -1:
        m.check(info.iter == mx, 'claimed-iteration-limit', d)
    m.check(info.iter is not None and int(np.ravel(info.iter)[0]) <= mx + 1, 'iterations', d)
    if kind == 'spd' and mx >= 20 * n and np.linalg.cond(H) < 1e5 and tol >= 1e-9 * bn:
        m.ev('spd_converges')
        m.check(info.flag in (0, 1), 'no-convergence-on-convex', d)
        xs = np.linalg.solve(H, b)
        if np.linalg.norm(xs) < .99 * D:
            m.check(info.flag == 0 and np.linalg.norm(x - xs) <= 1.01 * tol / np.linalg.eigvalsh(H)[0] + 1e-7 * np.linalg.norm(xs), 'convex-interior-solution', d)
    # decrease at least that of the best point along b inside the ball
    if mx >= 1 and bn > 0 and bn > tol * 1.000001:
        g = b / bn
        k = float(g @ H @ g)
        t = D if k <= 0 else min(D, bn / k)
        cau = .5 * t * t * k - bn * t
        m.ev('compared_with_cauchy')
        m.check(q <= cau + 1e-8 * abs(cau) + 1e-10 * (bn * xn + hn * xn * xn), 'worse-than-cauchy', lambda: '%s q=%r cauchy=%r' % (d(), q, cau))
    if bn > 0:
        m.nontrivial(kind, info.flag, n, case['s'])
        m.sample(dict(kind=kind, n=n, flag=info.flag, iterations=info.iter, norm=xn, radius=D, residual=res))
