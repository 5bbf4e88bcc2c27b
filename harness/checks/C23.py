"""Move to the best interpolation point: the best admissible point by merit becomes the first one, with all its data."""
import random
import numpy as np
from checks.C21 import gen_Y, refcond, describes

RULE = ('case = random interpolation set (n 1-5) with values, 0-3 constraints (0-2 of them with slack variables), bounds that exclude some points, '
        'some dummy points, penalty parameter 0..1e4; non-trivial = the best point is not the first; distinct by (n, p, constraints, best, seed)')
ASSUMPTIONS = ['merit ties (relative 1e-9) are not judged', 'the first point lies inside the bounds and is no dummy']
MIN = {'calls': 600, 'moved': 200, 'stayed': 80, 'excluded_by_bounds': 60, 'close_bound': 100, 'excluded_dummy': 60, 'with_slacks': 100, 'with_constraints': 300}


def cases(tier, seed):
    n = 1500 if tier == 'quick' else 20000
    return [dict(s=seed * 1000003 + i) for i in range(n)]


class C:
    dummy = 1
    nodummy = 0


class Info:
    pass


def run_case(case, m):
    from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_ as bq
    from sqpdfo.sqpdfo_find_smallf import sqpdfo_find_smallf_
    import sqpdfo.sqpdfo_global_variables as glob
    r = random.Random('C23-%s' % case['s'])
    G = lambda: r.gauss(0, 1)
    n = r.choice([1, 2, 2, 3, 4, 5])
    q = (n + 1) * (n + 2) // 2
    p = r.choice([n + 1, q, r.randint(n + 1, q)])
    wm = r.choice([0, 1, 2])
    Y = gen_Y(r, n, p)
    if not refcond(Y, wm) < 1e7:
        m.ev('skipped_illconditioned')
        return
    mc = r.choice([0, 1, 2, 3])
    mi = r.choice([0, 0, 1, min(2, mc)]) if mc else 0
    fY = np.array([G() for _ in range(p)]) * 10 ** r.uniform(-1, 2)
    if r.random() < .2:
        fY[0] = fY.min() - r.random()
    ceY = np.array([[G() for _ in range(p)] for _ in range(mc)]) * 10 ** r.uniform(-1, 1) if mc else np.array([])
    if mc and r.random() < .1:
        ceY = 0 * ceY
    sl = np.array([abs(G()) * r.choice([0, 1]) for _ in range(mi)])
    sigma = r.choice([0.0, .3, 1.0, 10 ** r.uniform(-3, 4)])
    ind = np.array(r.sample(range(3 * p), p))
    dst = np.zeros(3 * p)
    for j in range(1, p):
        if r.random() < .1:
            dst[ind[j]] = 1
    lb, ub = np.full((n, 1), -np.inf), np.full((n, 1), np.inf)
    if r.random() < .6:
        for i in range(n):
            j = r.randrange(0, p)
            if r.random() < .5:
                lb[i, 0] = min(Y[i, 0], Y[i, j])
            else:
                ub[i, 0] = max(Y[i, 0], Y[i, j])
            if r.random() < .4:
                # a bound between this point and the first one, close to it
                h = 10 ** r.uniform(-9, -2)
                if Y[i, j] < Y[i, 0] - 2 * h:
                    lb[i, 0] = Y[i, j] + h
                elif Y[i, j] > Y[i, 0] + 2 * h:
                    ub[i, 0] = Y[i, j] - h
                m.ev('close_bound')
    QZ, RZ, xb, scale = bq(Y.copy(), wm, 1, 1.0, 1.0, 1e15)
    info = Info()
    info.f, info.ce, info.ci = 123.0, np.array([]), np.array([])
    keep = [a.copy() for a in (Y, fY, ceY, ind, dst, lb, ub)]
    L = np.concatenate([lb, np.zeros((mi, 1))])
    U = np.concatenate([ub, np.full((mi, 1), 1e20)])
    try:
        glob.set_nbr_slacks(mi)
        glob.set_slacks(sl.reshape(-1, 1).copy() if mi else None)
        out = sqpdfo_find_smallf_(C(), QZ, RZ, Y, fY, np.array([]), ceY, ind, int(ind[0]), p, np.arange(n), Y[:, [0]].copy(), L, U, fY[0], dst, wm, scale, 1, 1.0, 1.0, 1e15,
                                  r.choice([sigma, np.array([[sigma]])]), info)
    finally:
        glob.set_nbr_slacks(0)
        glob.set_slacks(None)
    x, fx, Q, R, Yn, fn, cin, cen, indn, ib, scn, inf2 = out
    m.ev('calls')
    if mc:
        m.ev('with_constraints')
    if mi:
        m.ev('with_slacks')
    Yk, fk, ck, ik = keep[:4]
    m.check(all(np.array_equal(a, b) for a, b in zip((Y, fY, ceY, ind, dst, lb, ub), keep)), 'arguments-modified', 'arguments changed')
    sh = np.concatenate([np.zeros(mc - mi), sl ** 2]) if mc else None
    merit = np.array([fk[j] + (sigma * np.linalg.norm(ck[:, j] - sh) if mc else 0) for j in range(p)])
    if mc and not np.any(ck):
        merit = fk.copy()       # constraints all zero: a constant shift at most
    inb = np.all((Yk >= lb) & (Yk <= ub), axis=0)
    ok = inb & (dst[ik] != 1)
    if not np.all(inb):
        m.ev('excluded_by_bounds')
    if np.any(dst[ik] == 1):
        m.ev('excluded_dummy')
    adm = np.where(ok)[0]
    best = adm[np.argmin(merit[adm])]
    d = lambda: 'n=%d p=%d mc=%d mi=%d sigma=%g merit %r admissible %r index returned %r' % (n, p, mc, mi, sigma, merit.tolist(), ok.tolist(), ib)
    ib = int(np.ravel(ib)[0])
    tie = 1e-9 * (np.max(np.abs(merit)) + 1e-300)
    pos = [j for j in range(p) if ik[j] == ib]
    if not m.check(len(pos) == 1, 'unknown-point', d):
        return
    j = pos[0]
    m.check(ok[j], 'inadmissible-point', d)
    m.check(merit[j] <= merit[best] + tie, 'not-the-best-point', d)
    if merit[0] <= merit[best]:
        m.check(j == 0, 'moved-without-gain', d)
    perm = list(range(p))
    perm[0], perm[j] = perm[j], perm[0]
    m.check(np.array_equal(Yn, Yk[:, perm]), 'set', d)
    m.check(np.array_equal(np.ravel(fn), fk[perm]), 'values', d)
    m.check(np.array_equal(np.ravel(indn), ik[perm]), 'indices', d)
    m.check(np.array_equal(cen, ck[:, perm] if mc else ck), 'constraint-values', d)
    m.check(float(np.ravel(fx)[0]) == fk[j] and float(np.ravel(inf2.f)[0]) == fk[j], 'objective-of-the-point', d)
    if mc:
        m.check(np.array_equal(np.ravel(inf2.ce), ck[:, j]), 'constraints-of-the-point', d)
    m.check(np.max(np.abs(np.ravel(x) - Yk[:, j])) == 0, 'position', d)
    describes(m, 'smallf', Yk[:, perm], Q, R, x, scn, wm, r)
    m.ev('moved' if j else 'stayed')
    if best != 0:
        m.nontrivial(n, p, mc, mi, int(best), case['s'])
        m.sample(dict(n=n, p=p, constraints=mc, slacks=mi, moved_to=int(j)))
