"""Geometry improvement: replacement points maximise the Lagrange polynomials, repair changes only what it reports and leaves a poised set."""
import random
import numpy as np
import polyref
import trref
from checks.C21 import gen_Y, refcond, describes

RULE = ('case = random interpolation set (n 1-4, any admissible size, four kinds of model, some points far away) x radius: best replacement for one '
        'point, poisedness of the set, repair of the set; non-trivial = repair replaced something; distinct by (n, p, model, replaced, seed)')
ASSUMPTIONS = ['interpolating sets, mostly shifted, one in five unshifted (no over-determined regression); condition number below 1e7',
               'relative tolerance of the trust-region solver 1e-3 as in the optimizer']
MIN = {'new_point': 200, 'poisedness': 200, 'repair': 200, 'repair_replaced': 100, 'repair_far': 60, 'repair_nothing': 10, 'repair_poised': 100,
       'degenerate_poisedness': 80, 'degenerate_repaired': 60, 'unshifted_sets': 60}
EPS = 1e-3


def cases(tier, seed):
    n = 900 if tier == 'quick' else 11000
    return [dict(s=seed * 1000003 + i) for i in range(n)]


def maxabs(Y, wm, j, D, sh=1):
    """largest |L_j| over the ball of radius D around the first point (independent)"""
    Yz, sY, base = polyref.frame(Y, sh)
    c = polyref.reference_model(Yz, np.eye(Y.shape[1])[j], wm)[0]
    n = Y.shape[0]
    g, H = polyref.grad_hess(c, (Y[:, 0] - base) / sY, n)
    return max(-trref.tr_min(g, H, D / sY), -trref.tr_min(-g, -H, D / sY))


def lag(Y, wm, j, x, sh=1):
    Yz, sY, base = polyref.frame(Y, sh)
    c = polyref.reference_model(Yz, np.eye(Y.shape[1])[j], wm)[0]
    return polyref.evalp(c, (np.ravel(x) - base) / sY)


def degenerate(r, n, p):
    """set of p points on which no interpolation is possible: coincident points, or points in a hyperplane"""
    Y = gen_Y(r, n, p)
    s = np.max(np.linalg.norm(Y - Y[:, [0]], axis=0))
    if n == 1 or r.random() < .7:
        k = r.randint(1, p - 1)
        to = r.randrange(0, p)
        for j in r.sample([a for a in range(1, p) if a != to], min(k, p - (1 if to == 0 else 2))):
            Y[:, j] = Y[:, to] + r.choice([0, 1e-16]) * s
            if r.random() < .2:
                Y[:, j] = Y[:, 0]
    else:
        a = np.array([r.gauss(0, 1) for _ in range(n)])
        a /= np.linalg.norm(a)
        Y = Y - np.outer(a, a @ (Y - Y[:, [0]]))
    return Y


def run_degenerate(case, m, r):
    from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_ as bq
    from sqpdfo.bcdfo_poisedness_Y import bcdfo_poisedness_Y_
    from sqpdfo.bcdfo_repair_Y import bcdfo_repair_Y_
    n = r.choice([1, 2, 2, 3])
    q = polyref.nq(n)
    wm = r.choice([0, 0, 1, 1, 2])
    p = r.choice([n + 1, min(q, 2 * n + 1), q])
    if p == 2 and n == 1:
        p = 3
    Y = degenerate(r, n, p)
    Yz, sY = polyref.shift(Y)
    if not sY > 1e-7 * (1 + np.max(np.abs(Y))):
        m.ev('skipped_single_point')
        return
    if not refcond(Y, wm) > 1e13 and np.linalg.matrix_rank(Yz, 1e-13) == n:
        m.ev('skipped_not_degenerate')
        return
    QZ, RZ, xb, scale = bq(Y.copy(), wm, 1, 1.0, 1.0, 1e15)
    lb = np.full((n, 1), -np.inf)
    ind = np.arange(n)
    d = 'n=%d p=%d model %d' % (n, p, wm)
    po, rad = bcdfo_poisedness_Y_(QZ, RZ, Y, EPS, xb, 1, wm, 0, lb, -lb, ind, 1, scale, 1)
    po = float(np.ravel(po)[0])
    m.ev('degenerate_poisedness')
    m.check(not po < 1e4, 'degenerate-set-reported-poised', lambda: '%s reported %r Y=%r' % (d, po, Y.tolist()))
    D = sY * 10 ** r.choice([r.uniform(-2, .5), 0.0])
    far = r.choice([10, 1])
    Q, R, Yn, rep, mi, yr, xbn, scn = bcdfo_repair_Y_(QZ, RZ, Y.copy(), D, far, 1e-10, 1.2, EPS, xb, 1, wm, 0, lb, -lb, ind, 1, scale, 1, 1.0, 1e15)
    rep = [int(a) for a in np.ravel(rep)]
    mi = float(np.ravel(mi)[0])
    Yn = np.asarray(Yn)
    m.ev('degenerate_repair')
    m.check(all(np.array_equal(Yn[:, a], Y[:, a]) for a in range(p) if a not in rep), 'repair-unreported-change', d)
    dn = np.linalg.norm(Yn - Yn[:, [0]], axis=0)
    m.check(all(dn[a] <= D * (1 + 2 * EPS) * (1 + 1e-12) for a in rep), 'repair-replacement-outside-ball', lambda: '%s distances %r D %r' % (d, dn.tolist(), D))
    c2 = refcond(Yn, wm)
    if mi < 1.2:
        if m.check(c2 < 1e12 and np.linalg.matrix_rank(polyref.shift(Yn)[0], 1e-9) == n, 'degenerate-set-left', lambda: '%s replaced %r reported %r cond %g Y=%r' % (d, rep, mi, c2, Yn.tolist())) and c2 < 1e7:
            lam = max(maxabs(Yn, wm, k, D) for k in range(1, p))
            m.ev('degenerate_repaired')
            m.check(abs(lam - mi) <= (3 * EPS + 1e-10 * c2) * lam + 1e-8, 'repair-reported-poisedness', lambda: '%s true %r reported %r' % (d, lam, mi))
    m.nontrivial('degenerate', n, p, wm, case['s'])


def run_case(case, m):
    from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_ as bq
    from sqpdfo.bcdfo_find_new_yj import bcdfo_find_new_yj_
    from sqpdfo.bcdfo_poisedness_Y import bcdfo_poisedness_Y_
    from sqpdfo.bcdfo_repair_Y import bcdfo_repair_Y_
    r = random.Random('C22-%s' % case['s'])
    if case['s'] % 4 == 0:
        return run_degenerate(case, m, r)
    n = r.choice([1, 2, 2, 3, 3, 4])
    q = polyref.nq(n)
    wm = r.choice([0, 1, 2, 3])
    p = r.choice([n + 1, min(q, 2 * n + 1), q, r.randint(n + 1, q)])
    Y = gen_Y(r, n, p)
    sh = 1 if random.Random('C22s-%s' % case['s']).random() < .8 else 0
    if not sh:
        Y = polyref.unshiftable(Y, r)
        m.ev('unshifted_sets')
    cond = refcond(Y, wm, sh)
    if not cond < 1e7:
        m.ev('skipped_illconditioned')
        return
    Yz, sY = polyref.shift(Y)
    QZ, RZ, xb, scale = bq(Y.copy(), wm, sh, 1.0, 1.0, 1e15)
    lb = np.full((n, 1), -np.inf)
    ind = np.arange(n)
    tol = 3 * EPS + 1e-10 * cond
    Y0 = Y.copy()
    D = sY * 10 ** r.uniform(-2, 1)
    sc = float(np.max(np.abs(Y[:, 0]))) * 1e-13 + 1e-300
    # best replacement of one point
    j = r.randrange(0, p)
    y, imp, msg = bcdfo_find_new_yj_(QZ, RZ, Y, j, D, EPS, xb, 1, wm, scale, sh)
    imp = float(np.ravel(imp)[0])
    m.ev('new_point')
    d = lambda: 'j=%d n=%d p=%d model %d D/s=%g improvement %r cond %g' % (j, n, p, wm, D / sY, imp, cond)
    if j == 0:
        m.check(imp == 0, 'current-iterate-replaceable', d)
    else:
        ref = maxabs(Y, wm, j, D, sh)
        val = abs(lag(Y, wm, j, y, sh))
        m.check(np.linalg.norm(np.ravel(y) - Y[:, 0]) <= D * (1 + 2 * EPS) + sc, 'new-point-outside-ball', d)
        m.check(abs(val - imp) <= 1e-6 * (1 + cond * 1e-4) * max(1.0, imp), 'new-point-value', lambda: '%s value %r' % (d(), val))
        m.check(imp >= ref * (1 - tol) - 1e-8, 'new-point-not-best', lambda: '%s best %r' % (d(), ref))
    # poisedness
    po, rad = bcdfo_poisedness_Y_(QZ, RZ, Y, EPS, xb, 1, wm, 0, lb, -lb, ind, 1, scale, sh)
    po, rad = float(np.ravel(po)[0]), float(np.ravel(rad)[0])
    m.ev('poisedness')
    ref = max(maxabs(Y, wm, k, sY, sh) for k in range(1, p))
    m.check(abs(rad - sY) <= 1e-12 * sY + sc, 'poisedness-radius', lambda: '%r != %r' % (rad, sY))
    m.check(ref * (1 - tol) - 1e-8 <= po <= ref * (1 + 2 * tol) + 1e-8, 'poisedness-value', lambda: '%r, reference %r n=%d p=%d model %d cond %g' % (po, ref, n, p, wm, cond))
    # repair
    far = r.choice([10, 10, 2, 1])
    close = r.choice([1.2, 1.2, 1.2, 2.0, 5.0])
    D = sY * 10 ** r.uniform(-2, .5)
    d0 = np.linalg.norm(Y0 - Y0[:, [0]], axis=0)
    Q, R, Yn, rep, mi, yr, xbn, scn = bcdfo_repair_Y_(QZ, RZ, Y, D, far, 1e-10, close, EPS, xb, 1, wm, 0, lb, -lb, ind, 1, scale, sh, 1.0, 1e15)
    rep = [int(a) for a in np.ravel(rep)]
    mi, yr = float(np.ravel(mi)[0]), float(np.ravel(yr)[0])
    m.ev('repair')
    d = lambda: 'n=%d p=%d model %d D/s=%g far %g close %g replaced %r improvement %r radius %r' % (n, p, wm, D / sY, far, close, rep, mi, yr)
    m.check(np.array_equal(Y, Y0), 'repair-arguments-modified', d)
    Yn = np.asarray(Yn)
    if not m.check(Yn.shape == Y0.shape and np.all(np.isfinite(Yn)), 'repair-shape', d):
        return
    m.check(len(set(rep)) == len(rep) and all(1 <= a < p for a in rep), 'repair-indices', d)
    m.check(all(np.array_equal(Yn[:, a], Y0[:, a]) for a in range(p) if a not in rep), 'repair-unreported-change', d)
    dn = np.linalg.norm(Yn - Yn[:, [0]], axis=0)
    m.check(all(dn[a] <= D * (1 + 2 * EPS) + sc for a in rep), 'repair-replacement-outside-ball', lambda: '%s distances %r D %r' % (d(), dn.tolist(), D))
    m.check(np.all(dn <= far * (1 + EPS) * D + sc + D * EPS), 'repair-far-point-left', lambda: '%s distances %r D %r' % (d(), dn.tolist(), D))
    fr = [a for a in range(p) if d0[a] > far * (1 + EPS) * D * (1 + 1e-9)]
    m.check(all(a in rep for a in fr), 'repair-far-point-kept', d)
    m.check(abs(yr - np.max(dn)) <= 1e-12 * np.max(dn) + sc, 'repair-radius', lambda: '%s largest distance %r' % (d(), np.max(dn)))
    describes(m, 'repair', Yn, Q, R, xbn, scn, wm, r, sh)
    m.ev('repair_replaced' if rep else 'repair_nothing')
    if fr:
        m.ev('repair_far')
    c2 = refcond(Yn, wm, sh)
    if not c2 < 1e7:
        return
    t2 = 3 * EPS + 1e-10 * c2
    lam = max(maxabs(Yn, wm, k, D, sh) for k in range(1, p))
    if not rep:
        m.check(lam <= close * (1 + t2), 'repair-not-poised', lambda: '%s poisedness %r' % (d(), lam))
    if mi < close:
        m.ev('repair_poised')
        m.check(lam * (1 - t2) - 1e-8 <= mi <= lam * (1 + t2) + 1e-8, 'repair-reported-poisedness', lambda: '%s true %r cond %g' % (d(), lam, c2))
    else:
        m.ev('repair_loop_limit')
    m.data.append([bool(mi < close)])
    if rep:
        m.nontrivial(n, p, wm, rep, case['s'])
        m.sample(dict(n=n, p=p, model=wm, replaced=rep, reported=mi, poisedness=lam))


def finalize(data, counts, tier):
    tot, ok = len(data), sum(1 for _, d in data if d[0])
    counts['rate:repaired sets poised'] = ok
    counts['rate-total:repairs'] = tot
    if tot > 100 and ok < .95 * tot:
        return [(data[0][0], 'rate-repair', '%d of %d repairs ended with a poised set' % (ok, tot))]
    return []
