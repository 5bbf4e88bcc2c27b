"""Bound-constrained trust-region steps: inside box and ball, truthful value, never uphill, at least comparable to the Cauchy point."""
import random
import numpy as np
import trref

RULE = ('case = random quadratic x random bounds on the step (zero, narrow, wide, absent) x radius x both strategies for the bound search; compared '
        'with the best point of the projected steepest-descent path; non-trivial = some bound cuts the ball; distinct by (kind, n, seed)')
ASSUMPTIONS = ['lb <= 0 <= ub', 'lb < ub in every component']
MIN = {'steps': 500, 'bounds_matter': 200, 'compared_with_minimum': 300, 'several_active': 200}


class O:
    verbose = 0
    fout = 1


def cases(tier, seed):
    n = 8000 if tier == 'quick' else 120000
    return [dict(s=seed * 1000003 + i) for i in range(n)]


def run_case(case, m):
    from sqpdfo.bcdfo_solve_TR_MS_bc import bcdfo_solve_TR_MS_bc_ as MB
    r = random.Random('C17-%s' % case['s'])
    n = r.choice([1, 1, 2, 2, 3, 4, 5])
    kind, g, H = trref.rand_quadratic(r, n, ['spd', 'spd', 'spd', 'indef', 'neg', 'singular', 'zero', 'diag', 'illc'], (-2, 2), (-1, 1))
    D = 10 ** r.uniform(-3, 2)
    tight = r.random() < .5
    if tight:
        # convex, with several bounds cutting the path to the minimiser
        n = r.choice([2, 3, 4, 5, 6, 8])
        kind, g, H = trref.rand_quadratic(r, n, ['spd'], (-2, 2), (-1, 1))
        D = 10 ** r.uniform(-2, 2)
        if r.random() < .6:
            D = float(np.linalg.norm(np.linalg.solve(H, g))) * r.uniform(.5, 3)
    lb = np.array([r.choice([-1e20, -r.random() * D, 0.0, -r.choice([0.0, 1e-16, 1e-12]), -r.random() * D * 3, -10 * D]) for _ in range(n)])
    ub = np.array([r.choice([1e20, r.random() * D, 0.0, r.choice([0.0, 1e-16, 1e-12]), r.random() * D * 3, 10 * D]) for _ in range(n)])
    if tight:
        lb = np.array([r.choice([-1e20, -r.random() * D * .5, -r.random() * D * .2]) for _ in range(n)])
        ub = np.array([r.choice([1e20, r.random() * D * .5, r.random() * D * .2]) for _ in range(n)])
    for i in range(n):
        if ub[i] - lb[i] < 1e-6:
            ub[i] = D
    sl = r.choice([0, 1, 1])
    eps = r.choice([1e-3, 1e-7])
    C = lambda v: v.reshape(-1, 1).copy()
    gc, Hc, lc, uc = C(g), H.copy(), C(lb), C(ub)
    s, lam, ns, val, gp, nf, ne, msg = MB(gc, Hc, lc, uc, D, eps, sl, O())
    m.ev('steps')
    m.ev('strategy%d' % sl)
    shp = np.shape(s)
    s = np.asarray(s, float).ravel()
    if not m.check(shp == (n, 1) and np.all(np.isfinite(s)), 'shape', lambda: '%r' % (shp,)):
        return
    gn = float(np.linalg.norm(g))
    sn = float(np.linalg.norm(s))
    q = float(g @ s + .5 * s @ H @ s)
    v = float(np.ravel(val)[0])
    mag = gn * sn + float(np.linalg.norm(H)) * sn * sn
    d = lambda: 'kind %s n=%d D=%g strategy %d eps=%g s=%r lb=%r ub=%r q=%r value=%r msg=%s' % (kind, n, D, sl, eps, s.tolist(), lb.tolist(), ub.tolist(), q, v, msg)
    m.check(max(np.max(lb - s), np.max(s - ub)) <= 1e-9 * max(1.0, D), 'outside-bounds', d)
    m.check(sn <= D * (1 + eps) + 1e-5, 'outside-ball', d)
    m.check(abs(q - v) <= 1e-8 * mag + 1e-15, 'reported-value', d)
    m.check(abs(float(np.ravel(ns)[0]) - sn) <= 1e-9 * (1 + D), 'reported-norm', d)
    m.check(q <= 1e-9 * gn * D, 'uphill', d)
    m.check(np.array_equal(gc.ravel(), g) and np.array_equal(Hc, H) and np.array_equal(lc.ravel(), lb) and np.array_equal(uc.ravel(), ub), 'arguments-modified', d)
    c = trref.cauchy(g, H, lb, ub, D)
    if c < -1e-6 * gn * D:
        ratio = q / c
        m.ev('compared_with_cauchy')
        m.data.append([kind in ('spd', 'illc'), bool(ratio >= 0.9), bool(ratio >= 0.5), bool(ratio > 0)])
    if tight:
        b = trref.box_ball_min(g, H, lb, ub, D)
        if b < -1e-6 * gn * D:
            m.ev('compared_with_minimum')
            if np.sum((s - lb < 1e-6) | (ub - s < 1e-6)) > 1:
                m.ev('several_active')
            m.check(q <= .5 * b, 'far-from-minimum', lambda: '%s; best %r' % (d(), b))
            m.data.append(['best', bool(q <= .9 * b), bool(q <= .95 * b)])
    if np.any(lb > -D) or np.any(ub < D):
        m.ev('bounds_matter')
        m.nontrivial(kind, n, case['s'])
        m.sample(dict(kind=kind, n=n, D=D, s=s, lb=lb, ub=ub, value=v, cauchy=c))


def finalize(data, counts, tier):
    out = []
    if len(data) < 300:
        return out
    best = [d for _, d in data if d[0] == 'best']
    D = [d for _, d in data if d[0] != 'best']
    conv = [d for d in D if d[0]]
    for name, sub, k, need in (('90-percent-of-cauchy', D, 1, .994), ('half-of-cauchy-convex', conv, 2, .995), ('some-decrease', D, 3, .998)):
        good = sum(1 for d in sub if d[k])
        counts['rate:' + name] = good
        counts['rate-total:' + name] = len(sub)
        if good < need * len(sub):
            out.append((data[0][0], 'rate-' + name, '%d of %d steps' % (good, len(sub))))
    for name, k, need in (('90-percent-of-best', 1, .994), ('95-percent-of-best', 2, .96)):
        good = sum(1 for d in best if d[k])
        counts['rate:' + name] = good
        counts['rate-total:' + name] = len(best)
        if good < need * len(best):
            out.append((data[0][0], 'rate-' + name, '%d of %d steps' % (good, len(best))))
    return out
