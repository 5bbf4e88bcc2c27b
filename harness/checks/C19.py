"""BFGS update and convexification keep matrices symmetric and positive; secant condition with Powell's correction."""
import random
import numpy as np

RULE = ('case = chain of 1-8 BFGS updates from a random positive definite matrix with steps/gradient changes of any sign and scale (including zero '
        'step, negative curvature, first update) and a random symmetric matrix given to the convexification; non-trivial = some update with '
        'correction or some negative eigenvalue; distinct by (n, seed)')
ASSUMPTIONS = ['condition number of the matrices below 1e10']
MIN = {'updates': 1000, 'corrected_updates': 200, 'null_steps': 30, 'convexified': 200}


class O:
    verbose = 0
    fout = 1


def cases(tier, seed):
    n = 1500 if tier == 'quick' else 25000
    return [dict(s=seed * 1000003 + i) for i in range(n)]


class Info:
    flag = 0


def run_case(case, m):
    from sqpdfo.sqpdfo_bfgs_update import sqpdfo_bfgs_update_ as up
    from sqpdfo.sqpdfo_check_convex import sqpdfo_check_convex_ as cc
    from sqpdfo.sqpdfo_values import sqpdfoValues
    values = sqpdfoValues()
    r = random.Random('C19-%s' % case['s'])
    G = lambda: r.gauss(0, 1)
    n = r.choice([1, 2, 3, 4, 6])
    A = np.array([[G() for _ in range(n)] for _ in range(n)])
    H = np.eye(n) if r.random() < .3 else A @ A.T + .1 * np.eye(n)
    H = H * 10 ** r.uniform(-2, 2)
    nt = False
    for it in range(r.randint(1, 8)):
        s = np.array([G() for _ in range(n)]) * 10 ** r.uniform(-3, 2)
        mode = r.choice(['convex', 'convex', 'random', 'concave', 'tiny', 'zero', 'border'])
        B = np.array([[G() for _ in range(n)] for _ in range(n)])
        y = (B @ B.T) @ s
        if mode == 'random':
            y = np.array([G() for _ in range(n)]) * 10 ** r.uniform(-3, 2)
        if mode == 'concave':
            y = -y
        if mode == 'tiny':
            y = 1e-9 * y
        if mode == 'border':
            y = r.choice([.19, .2000001, .21]) * (H @ s)
        if mode == 'zero':
            s = np.zeros(n)
        first = 1 if it == 0 and r.random() < .4 else 0
        H0 = H.copy()
        Hc, yc, sc_ = H.copy(), y.reshape(-1, 1).copy(), s.reshape(-1, 1).copy()
        H1, pc, info, _ = up(Hc, yc, sc_, first, Info(), O(), values)
        H1 = np.asarray(H1, float)
        m.ev('updates')
        d = lambda: 'n=%d mode=%s first=%d pc=%r H=%r y=%r s=%r -> %r' % (n, mode, first, pc, H0.tolist(), y.tolist(), s.tolist(), H1.tolist())
        m.check(np.array_equal(yc.ravel(), y) and np.array_equal(sc_.ravel(), s), 'bfgs-arguments-modified', d)
        sHs = float(s @ H0 @ s)
        if mode == 'zero':
            m.ev('null_steps')
            m.check(info.flag == values.fail_unexpected and np.array_equal(H1, H0), 'bfgs-null-step', d)
            continue
        if not m.check(info.flag == values.success and H1.shape == (n, n) and np.all(np.isfinite(H1)), 'bfgs-failed', d):
            return
        ys = float(y @ s)
        pc = float(np.ravel(pc)[0])
        if abs(ys - .2 * sHs) > 1e-10 * abs(sHs):
            want = 1.0 if ys >= .2 * sHs else .8 * sHs / (sHs - ys)
            m.check(abs(pc - want) <= 1e-9, 'bfgs-correction', lambda: 'want %r %s' % (want, d()))
        yy = pc * y + (1 - pc) * (H0 @ s)
        if pc < 1:
            m.ev('corrected_updates')
            nt = True
        hn = float(np.max(np.abs(H1)))
        m.check(np.max(np.abs(H1 - H1.T)) <= 1e-12 * hn, 'bfgs-symmetric', d)
        e = np.linalg.eigvalsh((H1 + H1.T) / 2)
        con = np.linalg.cond(H0)
        m.check(e[0] > -1e-13 * con * hn, 'bfgs-positive', lambda: 'eigenvalues %r %s' % (e.tolist(), d()))
        m.check(np.max(np.abs(H1 @ s - yy)) <= 1e-10 * (con + np.linalg.cond(H1)) * (np.max(np.abs(yy)) + hn * np.max(np.abs(s)) * 1e-3), 'bfgs-secant', lambda: 'Hs=%r y=%r %s' % ((H1 @ s).tolist(), yy.tolist(), d()))
        # rank-two structure: unchanged on vectors orthogonal (in the old metric) to the step and to y
        if not first and n >= 3:
            W = np.stack([H0 @ s, yy])
            Z = np.linalg.svd(W)[2][2:].T
            m.check(np.max(np.abs((H1 - H0) @ Z)) <= 1e-10 * (hn + np.max(np.abs(H0))), 'bfgs-other-directions', d)
        if first and n >= 2:
            p = float(yy @ yy) / float(yy @ s)
            W = np.stack([s, yy])
            Z = np.linalg.svd(W)[2][2:].T
            if Z.size:
                m.check(np.max(np.abs(H1 @ Z - p * Z)) <= 1e-9 * (hn + p), 'bfgs-first-scaling', d)
        H = (H1 + H1.T) / 2
        if e[0] <= 0 or e[-1] / e[0] > 1e8:
            break
    # convexification
    n = r.choice([1, 2, 3, 5])
    A = np.array([[G() for _ in range(n)] for _ in range(n)])
    kind = r.choice(['spd', 'indef', 'indef', 'neg', 'psd'])
    S = (A + A.T) / 2
    if kind == 'spd':
        S = A @ A.T + .1 * np.eye(n)
    if kind == 'neg':
        S = -A @ A.T
    if kind == 'psd':
        S = A[:, :1] @ A[:, :1].T
    S = S * 10 ** r.uniform(-2, 3)
    S0 = S.copy()
    C = np.asarray(cc(S, O()), float)
    m.ev('convexified')
    w, V = np.linalg.eigh(S0)
    sn = max(1e-300, float(np.max(np.abs(w))))
    d = lambda: 'kind %s S=%r -> %r' % (kind, S0.tolist(), C.tolist())
    m.check(np.array_equal(S, S0), 'convex-arguments-modified', d)
    m.check(np.max(np.abs(C - C.T)) <= 1e-12 * sn, 'convex-symmetric', d)
    we = np.linalg.eigvalsh((C + C.T) / 2)
    m.check(we[0] >= -1e-12 * sn, 'convex-not-positive', lambda: 'eigenvalues %r %s' % (we.tolist(), d()))
    want = V @ np.diag(np.maximum(w, 0)) @ V.T
    m.check(np.max(np.abs(C - want)) <= 1e-8 + 1e-11 * sn, 'convex-changes-positive-part', d)
    if w[0] < -1e-9 * sn:
        m.ev('negative_eigenvalues')
        nt = True
    if nt:
        m.nontrivial(n, case['s'])
        m.sample(dict(n=n, kind=kind, eigenvalues=we))
