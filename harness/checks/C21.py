"""Edits of the interpolation set: only the intended points change, companion data move along, the factorisation describes the new set."""
import random
import numpy as np
import polyref

RULE = ('case = random interpolation set (n 1-5, any admissible size, four kinds of model, with function/constraint values) x one augment, replace, '
        'swap and three include calls (all criteria, successful or not); non-trivial = well conditioned set; distinct by (operation, n, p, model, seed)')
ASSUMPTIONS = ['mostly shifted sets, one in five unshifted; condition number below 1e7', 'include ties (criterion within 1e-6) are not judged']
MIN = {'replace': 300, 'augment': 200, 'swap': 300, 'include_done': 200, 'include_refused': 60, 'weighted': 60, 'standard': 60, 'distance': 60, 'unshifted_sets': 60}


def cases(tier, seed):
    n = 1200 if tier == 'quick' else 16000
    return [dict(s=seed * 1000003 + i) for i in range(n)]


def gen_Y(r, n, p):
    c = 10.0 ** r.choice([-2, 0, 0, 1, 2]) * np.array([[r.gauss(0, 1)] for _ in range(n)])
    A = np.array([[r.gauss(0, 1) for _ in range(p)] for _ in range(n)])
    if r.random() < .4:
        I = np.eye(n)
        B = np.concatenate([np.zeros((n, 1)), -I, I], axis=1)
        k = min(p, 2 * n + 1)
        A[:, :k] = B[:, :k]
    if r.random() < .3 and p > 2:
        A[:, r.randrange(1, p)] *= 10
    return c + 10.0 ** r.uniform(-3, 1) * A


def refcond(Y, wm, sh=1):
    Yz, sY, _ = polyref.frame(Y, sh)
    if not sY > 0:
        return np.inf
    try:
        return polyref.reference_model(Yz, np.zeros(Y.shape[1]), wm)[1]
    except np.linalg.LinAlgError:
        return np.inf


def ref_lagrange(Y, wm, x, sh=1):
    """values at x of the Lagrange polynomials of Y, from the independent reference"""
    Yz, sY, base = polyref.frame(Y, sh)
    p = Y.shape[1]
    z = (np.ravel(x) - base) / sY
    return np.array([polyref.evalp(polyref.reference_model(Yz, np.eye(p)[j], wm)[0], z) for j in range(p)])


def describes(m, key, Y, QZ, RZ, xb, scale, wm, r, sh=1):
    """the factorisation belongs to Y: model of random values at random points agrees with the reference"""
    from sqpdfo.bcdfo_computeP import bcdfo_computeP_ as cP
    from sqpdfo.bcdfo_evalP import bcdfo_evalP_ as eP
    n, p = Y.shape
    q = polyref.nq(n)
    cond = refcond(Y, wm, sh)
    if not cond < 1e7:
        m.ev('skipped_illconditioned')
        return
    Yz, sY, base = polyref.frame(Y, sh)
    f = np.array([r.gauss(0, 1) for _ in range(p)])
    P = cP(QZ, RZ, Y.copy(), f.reshape(1, -1), wm, np.zeros((1, q)), np.arange(p), 0, 0, np.zeros((n, 1)), scale, sh, 1.0)
    cf = polyref.reference_model(Yz, f, wm)[0]
    x = Y[:, [0]] + sY * np.array([[r.gauss(0, 1)] for _ in range(n)])
    z = (x.ravel() - base) / sY
    got = float(np.ravel(eP(P, x, xb, scale, sh))[0])
    ref = polyref.evalp(cf, z)
    tol = (1e-12 * cond + 1e-9) * (np.max(np.abs(cf)) + np.max(np.abs(f))) * (1 + z @ z)
    m.check(abs(got - ref) <= tol, key + '-factorisation', lambda: 'n=%d p=%d model %d: %r != %r (cond %g)' % (n, p, wm, got, ref, cond))


def run_case(case, m):
    from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_ as bq
    from sqpdfo.bcdfo_augment_Y import bcdfo_augment_Y_
    from sqpdfo.bcdfo_replace_in_Y import bcdfo_replace_in_Y_
    from sqpdfo.bcdfo_include_in_Y import bcdfo_include_in_Y_
    from sqpdfo.sqpdfo_swap_in_Y import sqpdfo_swap_in_Y_
    r = random.Random('C21-%s' % case['s'])
    n = r.choice([1, 2, 2, 3, 3, 4, 5])
    q = polyref.nq(n)
    wm = r.choice([0, 1, 2, 3])
    p = r.choice([n + 1, min(q, 2 * n + 1), q, r.randint(n + 1, q)] + ([q + 2] if wm == 3 else []))
    Y = gen_Y(r, n, p)
    sh = 1 if random.Random('C21s-%s' % case['s']).random() < .8 else 0
    if not sh:
        Y = polyref.unshiftable(Y, r)
        m.ev('unshifted_sets')
    if not refcond(Y, wm, sh) < 1e7:
        m.ev('skipped_illconditioned')
        return
    Yz, sY = polyref.shift(Y)
    QZ, RZ, xb, scale = bq(Y.copy(), wm, sh, 1.0, 1.0, 1e15)
    D, gx, ki = 1.0, 1.0, 1e15
    rp = lambda t=1.0: Y[:, [0]] + sY * t * np.array([[r.gauss(0, 1)] for _ in range(n)])
    Y0, Q0, R0 = Y.copy(), np.array(QZ).copy(), np.array(RZ).copy()

    def untouched(key):
        m.check(np.array_equal(Y, Y0) and np.array_equal(QZ, Q0) and np.array_equal(RZ, R0), key + '-arguments-modified', 'arguments changed')
    # replace
    j = r.randrange(0, p)
    y = rp()
    Q, R, Yn, xbn, sc = bcdfo_replace_in_Y_(QZ, RZ, y.copy(), Y, j, xb, wm, scale, sh, D, gx, ki)
    m.ev('replace')
    E = Y0.copy()
    E[:, j] = y.ravel()
    m.check(np.array_equal(Yn, E), 'replace-wrong-set', lambda: 'j=%d %r' % (j, (np.asarray(Yn) - E).tolist()))
    untouched('replace')
    describes(m, 'replace', E, Q, R, xbn, sc, wm, r, sh)
    # augment
    k = r.choice([1, 1, 2])
    if p + k <= q or wm == 3:
        Ya = np.concatenate([rp() for _ in range(k)], axis=1)
        pa, Q, R, Yn, xbn, sc = bcdfo_augment_Y_(Ya.copy(), Y, wm, sh, D, gx, ki)
        m.ev('augment')
        E = np.concatenate([Y0, Ya], axis=1)
        m.check(np.shape(Yn) == E.shape and np.array_equal(Yn, E), 'augment-wrong-set', 'points')
        m.check(pa == p + k, 'augment-wrong-size', lambda: '%r != %d' % (pa, p + k))
        untouched('augment')
        describes(m, 'augment', E, Q, R, xbn, sc, wm, r, sh)
    elif p == q:
        pa, Q, R, Yn, xbn, sc = bcdfo_augment_Y_(rp(), Y, wm, sh, D, gx, ki)
        m.ev('augment_full')
        m.check(np.array_equal(Yn, Y0) and pa == p, 'augment-beyond-full', 'a full set was extended')
        describes(m, 'augment', Y0, Q, R, xbn, sc, wm, r, sh)
    # swap
    i, j = r.randrange(0, p), r.randrange(0, p)
    ind = np.array(r.sample(range(3 * p), p))
    fY = np.array([r.gauss(0, 1) for _ in range(p)])
    me, mi = r.choice([0, 1, 2]), r.choice([0, 0, 1])
    ceY = np.array([[r.gauss(0, 1) for _ in range(p)] for _ in range(me)]) if me else np.array([])
    ciY = np.array([[r.gauss(0, 1) for _ in range(p)] for _ in range(mi)]) if mi else np.array([])
    keep = [a.copy() for a in (ind, fY, ciY, ceY)]
    out = sqpdfo_swap_in_Y_(i, j, QZ, RZ, Y, ind, fY, ciY, ceY, xb, wm, scale, sh, D, gx, ki)
    m.ev('swap')
    perm = list(range(p))
    perm[i], perm[j] = perm[j], perm[i]
    d = lambda: 'i=%d j=%d p=%d' % (i, j, p)
    m.check(np.array_equal(out[2], Y0[:, perm]), 'swap-wrong-set', d)
    m.check(np.array_equal(np.ravel(out[3]), keep[0][perm]), 'swap-wrong-indices', d)
    m.check(np.array_equal(np.ravel(out[4]), keep[1][perm]), 'swap-wrong-values', d)
    m.check(np.array_equal(out[5], keep[2][:, perm] if mi else keep[2]), 'swap-wrong-ci', d)
    m.check(np.array_equal(out[6], keep[3][:, perm] if me else keep[3]), 'swap-wrong-ce', d)
    m.check(all(np.array_equal(a, b) for a, b in zip((ind, fY, ciY, ceY), keep)), 'swap-arguments-modified', d)
    untouched('swap')
    describes(m, 'swap', Y0[:, perm], out[0], out[1], out[7], out[8], wm, r, sh)
    # include
    if wm == 3 and p > q:
        wm_ok = False
    else:
        wm_ok = True
    for _ in range(3):
        crit = r.choice(['weighted', 'standard', 'distance'])
        succ = r.choice([0, 1])
        thr = r.choice([1e-10, 1e-10, .1, 1.0, 5.0])
        x = rp(r.choice([.1, 1, 1, 3]))
        ch = sorted(r.sample(range(p), r.randint(0, p)))
        if r.random() < .6:
            ch = [a for a in range(1, p)]
        cs = np.array(ch, dtype=int)
        Q, R, Yn, pos, xbn, sc = bcdfo_include_in_Y_(x.copy(), QZ, RZ, Y, cs, thr, crit, xb, wm, succ, scale, sh, D, gx, ki)
        L = np.abs(ref_lagrange(Y0, wm, x, sh))
        cand = [a for a in ch if L[a] > thr * (1 + 1e-6)]
        edge = [a for a in ch if abs(L[a] - thr) <= thr * 1e-6]
        untouched('include')
        if edge:
            m.ev('include_edge')
            continue
        ref = x if succ == 1 else Y0[:, [0]]
        dist = np.linalg.norm(Y0 - ref, axis=0)
        cv = dist ** 2 * L if crit == 'weighted' else L if crit == 'standard' else dist
        cand = [a for a in cand if cv[a] > 1e-14 * np.max(cv)]
        dd = lambda: 'crit %s succ %d thr %g choice %r got %r values %r L %r model %d n=%d p=%d' % (crit, succ, thr, ch, pos, cv.tolist(), L.tolist(), wm, n, p)
        if not cand:
            m.ev('include_refused')
            m.check(pos == -1 and np.array_equal(Yn, Y0), 'include-not-refused', dd)
            continue
        best = max(cv[a] for a in cand)
        m.ev('include_done')
        m.ev(crit)
        if not m.check(pos in ch, 'include-outside-choice', dd):
            continue
        m.check(L[pos] > thr * (1 - 1e-6), 'include-below-threshold', dd)
        m.check(cv[pos] >= best * (1 - 1e-6), 'include-not-best', dd)
        E = Y0.copy()
        E[:, pos] = x.ravel()
        m.check(np.array_equal(Yn, E), 'include-wrong-set', dd)
        describes(m, 'include', E, Q, R, xbn, sc, wm, r, sh)
    m.nontrivial(n, p, wm, case['s'])
    m.sample(dict(n=n, p=p, model=wm, swapped=[i, j]))
