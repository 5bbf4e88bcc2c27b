"""The trust-region subproblem solver returns a global minimiser inside the ball."""
import random
import numpy as np
import trref

RULE = ('case = random quadratic (n 1-7; positive definite, indefinite, negative, singular, zero, diagonal, hard and nearly hard case; scales over '
        'many decades) x radius 1e-9..1e4 x boundary accuracy; result compared with an exact eigen-decomposition solution; non-trivial = every '
        'case with a non-negligible gradient; distinct by (kind, n, seed)')
ASSUMPTIONS = ['gradient norm above 1e-6, or zero (in between the solver may return the zero step by design)', 'boundary accuracy eps_D as requested by the caller', 'a possible decrease above 2e-15 (below, the zero step is returned by design)']
MIN = {'subproblems': 800, 'interior': 50, 'boundary': 300, 'hardcase': 30, 'zero_gradient': 60}

LAMMIN = 1e-10      # curvature below this (relative to max(1, |H|)) is noise


def cases(tier, seed):
    n = 16000 if tier == 'quick' else 200000
    return [dict(s=seed * 1000003 + i) for i in range(n)]


def run_case(case, m):
    from sqpdfo.bcdfo_solve_TR_MS import bcdfo_solve_TR_MS_ as MS
    r = random.Random('C16-%s' % case['s'])
    n = r.choice([1, 1, 2, 2, 3, 4, 5, 7])
    kind, g, H = trref.rand_quadratic(r, n, ['spd', 'spd', 'indef', 'neg', 'singular', 'zero', 'diag', 'hard', 'nearhard', 'illc'])
    if r.random() < .1 and n > 2:
        # hard case with a multiple smallest eigenvalue
        kind = 'hardmult'
        w, V = np.linalg.eigh(H)
        k = r.randint(2, n - 1)
        w = np.sort(np.array([r.gauss(0, 1) for _ in range(n)]))
        w[:k] = w[0] - r.choice([0, 1, 5])
        sc = 10 ** r.uniform(-4, 7)
        H = V @ np.diag(w) @ V.T * sc
        H = (H + H.T) / 2
        g = V[:, k:] @ np.array([r.gauss(0, 1) for _ in range(n - k)]) * 10 ** r.uniform(-5.5, 4)
    elif r.random() < .15:
        sc = 10 ** r.uniform(-5, 4)
        kind, g, H = kind + '-scaled', g * sc, H * sc
    D = 10 ** r.uniform(-9, 4)
    if r.random() < .15 and kind in ('spd', 'illc'):
        # minimiser just inside / outside the ball
        D = float(np.linalg.norm(np.linalg.solve(H, g))) * r.choice([1.0, 1 + 1e-4, 1 - 1e-4, .5, 2])
    if kind.startswith('hard') and r.random() < .4:
        # just enough room beside the critical step
        w, V = np.linalg.eigh(H)
        c = V.T @ g
        gap = w - w[0]
        big = gap > 1e-6 * max(abs(w[0]), abs(w[-1]))
        D = float(np.linalg.norm(c[big] / gap[big])) * r.choice([.9, 1.01, 1.5, 3, 10]) or D
    eps = r.choice([1e-3, 1e-3, 1e-2, 1e-6])
    gn = float(np.linalg.norm(g))
    if r.random() < .08:
        # a stationary model: only negative curvature can decrease it
        g = 0 * g
        if r.random() < .5:
            g = g + 1e-17 * np.array([r.gauss(0, 1) for _ in range(n)])
        gn = float(np.linalg.norm(g))
        if float(np.linalg.eigvalsh(H)[0]) > -LAMMIN * max(1.0, float(np.linalg.norm(H, 2))) and float(np.linalg.eigvalsh(H)[0]) < 0:
            return
        m.ev('zero_gradient')
    elif gn < 1.01e-6 or not D > 0:
        return
    gc, Hc = g.reshape(-1, 1).copy(), H.copy()
    s, lam, ns, val, gp, nf, ne, msg, hc = MS(gc, Hc, D, eps)
    m.ev('subproblems')
    shp = np.shape(s)
    s = np.asarray(s, float).ravel()
    if not m.check(shp == (n, 1) and np.all(np.isfinite(s)), 'shape', lambda: 'step shape %r %r' % (shp, s)):
        return
    v = float(np.ravel(val)[0])
    q = float(g @ s + .5 * s @ H @ s)
    R = trref.tr_min(g, H, D)
    if abs(R) <= 2e-15:
        # decrease below the solver's rounding level
        m.ev('negligible')
        return
    sn = float(np.linalg.norm(s))
    mag = gn * sn + float(np.linalg.norm(H)) * sn * sn
    d = lambda: 'kind %s n=%d D=%g eps=%g |s|=%g q=%r reference=%r lambda=%r msg=%s' % (kind, n, D, eps, sn, q, R, lam, msg)
    m.check(sn <= D * (1 + eps) * (1 + 1e-8), 'norm', d)
    m.check(q <= (1 - eps) ** 2 * R + 1e-6 * abs(R) + 1e-12 * mag + (gn * D + 1e-12 * float(np.linalg.norm(H)) * D * D if gn < 1e-15 else 0), 'not-global-minimum', d)
    m.check(abs(v - q) <= 1e-9 * mag + 1e-15, 'reported-value', lambda: '%s reported %r' % (d(), v))
    m.check(np.max(np.abs(np.ravel(gp) - (g + H @ s))) <= 1e-9 * (gn + float(np.linalg.norm(H)) * sn), 'reported-gradient', d)
    m.check(abs(float(np.ravel(ns)[0]) - sn) <= 1e-9 * D, 'reported-norm', d)
    m.check(np.array_equal(gc.ravel(), g) and np.array_equal(Hc, H), 'arguments-modified', d)
    m.ev('hardcase' if hc else 'boundary' if sn >= D * (1 - eps) else 'interior')
    m.ev('kind_' + kind)
    m.nontrivial(kind, n, case['s'])
    m.sample(dict(kind=kind, n=n, D=D, eps=eps, norm=sn, value=q, reference=R))
