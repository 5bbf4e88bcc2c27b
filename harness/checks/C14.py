"""Interpolation models: interpolation, exact reproduction, minimum-norm/least-squares property, Lagrange polynomials."""
import random
import numpy as np
import polyref

RULE = ('case = random interpolation set (n 1-6, any admissible number of points, centre up to 1e3, diameter 1e-4..1e2, random/clustered/simplex) x '
        'kind of model x 2 right-hand sides (+ linear and quadratic data), compared with an independent reference; non-trivial = reference '
        'condition number < 1e8; distinct by (n, p, model, shape, seed)')
ASSUMPTIONS = ['mostly shifted and scaled sets (the setting the optimizer uses), one in five unshifted', 'tolerance 1e-12 * condition number + 1e-10, relative to the data']
MIN = {'models_compared': 300, 'lagrange_compared': 300, 'model0': 40, 'model1': 40, 'model2': 40, 'model3': 40, 'reproduction': 100, 'unshifted_sets': 60}


def cases(tier, seed):
    n = 1200 if tier == 'quick' else 16000
    return [dict(s=seed * 1000003 + i) for i in range(n)]


def gen_set(r, n, p, kind):
    c = 10.0 ** r.choice([-2, 0, 0, 1, 3]) * np.array([[r.gauss(0, 1)] for _ in range(n)])
    d = 10.0 ** r.uniform(-4, 2)
    A = np.array([[r.gauss(0, 1) for _ in range(p)] for _ in range(n)])
    if kind == 'simplex':
        I = np.eye(n)
        B = np.concatenate([np.zeros((n, 1)), -I, I], axis=1)
        A[:, :min(p, 2 * n + 1)] = B[:, :min(p, 2 * n + 1)]
    elif kind == 'stretched':
        A = A * np.array([[10 ** r.uniform(-1.5, 0)] for _ in range(n)])
    if d < 1e-9 * np.max(np.abs(c)):
        d = 1.0
    return c + d * A


def run_case(case, m):
    from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_ as bq
    from sqpdfo.bcdfo_computeP import bcdfo_computeP_ as cP
    from sqpdfo.bcdfo_computeLj import bcdfo_computeLj_ as cL
    from sqpdfo.bcdfo_evalP import bcdfo_evalP_ as eP
    from sqpdfo.bcdfo_evalL import bcdfo_evalL_ as eL
    from sqpdfo.bcdfo_gradP import bcdfo_gradP_ as gP
    from sqpdfo.bcdfo_hessP import bcdfo_hessP_ as hP
    r = random.Random('C14-%s' % case['s'])
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
    q = polyref.nq(n)
    wm = r.choice([0, 1, 2, 3])
    if wm == 3:
        p = r.choice([q, r.randint(q, 2 * q), r.randint(n + 1, q)])
    else:
        p = r.choice([n + 1, min(q, 2 * n + 1), q, r.randint(n + 1, q)])
    kind = r.choice(['random', 'simplex', 'stretched'])
    Y = gen_set(r, n, p, kind)
    sh = 1 if random.Random('C14s-%s' % case['s']).random() < .8 else 0
    if not sh:
        Y = polyref.unshiftable(Y, r)      # models in the original variables
        m.ev('unshifted_sets')
    Yz, sY, base = polyref.frame(Y, sh)
    QZ, RZ, xb, scale = bq(Y.copy(), wm, sh, 1.0, 1.0, 1e15)
    F = np.array([[r.gauss(0, 1) * 10 ** r.choice([0, 0, 3]) for _ in range(p)] for _ in range(2)])
    try:
        refs = [polyref.reference_model(Yz, F[k], wm) for k in range(2)]
    except np.linalg.LinAlgError:
        return
    cond = refs[0][1]
    if not cond < 1e8:
        m.ev('skipped_illconditioned')
        return
    Y0 = Y.copy()
    P = cP(QZ, RZ, Y, F, wm, np.zeros((1, q)), np.arange(p), 0, 0, np.zeros((n, 1)), scale, sh, 1.0)
    P = np.asarray(P)
    m.check(np.array_equal(Y, Y0), 'set-modified', 'computeP modified its interpolation set')
    m.ev('models_compared')
    m.ev('model%d' % wm)
    tol = 1e-12 * cond + 1e-10
    X = Y[:, [0]] + sY * np.array([[r.gauss(0, 1) for _ in range(4)] for _ in range(n)])
    interp = not (wm == 3 and p > q)
    for k in range(2):
        fs = np.max(np.abs(F[k]))
        if interp:
            e = max(abs(float(np.ravel(eP(P[[k], :], Y[:, [i]], xb, scale, sh))[0]) - F[k, i]) for i in range(p))
            m.check(e <= tol * fs, 'interpolation@model%d' % wm, lambda: 'n=%d p=%d error %g cond %g' % (n, p, e, cond))
        cf = refs[k][0]
        cs = np.max(np.abs(cf))
        for j in range(X.shape[1]):
            z = (X[:, j] - base) / sY
            ref = polyref.evalp(cf, z)
            got = float(np.ravel(eP(P[[k], :], X[:, [j]], xb, scale, sh))[0])
            sc = (cs + fs) * (1 + z @ z)
            if not m.check(abs(got - ref) <= tol * sc, 'model-value@model%d' % wm, lambda: 'n=%d p=%d %r != %r cond %g' % (n, p, got, ref, cond)):
                break
            g, H = polyref.grad_hess(cf, z, n)
            gg = np.ravel(gP(P[[k], :], X[:, [j]], xb, scale, sh))
            HH = np.asarray(hP(P[[k], :], X[:, [j]], xb, scale, sh))
            m.check(gg.shape == (n,) and np.max(np.abs(gg * sY - g)) <= tol * sc, 'model-gradient@model%d' % wm, lambda: '%r != %r' % ((gg * sY).tolist(), g.tolist()))
            m.check(HH.shape == (n, n) and np.max(np.abs(HH * sY ** 2 - H)) <= tol * sc, 'model-hessian@model%d' % wm, lambda: '%r != %r' % ((HH * sY ** 2).tolist(), H.tolist()))
    # Lagrange polynomials
    m.ev('lagrange_compared')
    Ls = []
    js = list(range(p)) if p <= 8 else r.sample(range(p), 6)
    for j in range(p):
        Ls.append(np.asarray(cL(QZ, RZ, j, Y.copy(), wm, scale, sh)))
    lsc = max(np.max(np.abs(L)) for L in Ls)
    if interp:
        for j in js:
            e = max(abs(float(np.ravel(eP(Ls[j], Y[:, [i]], xb, scale, sh))[0]) - (i == j)) for i in range(p))
            m.check(e <= tol, 'lagrange-delta@model%d' % wm, lambda: 'n=%d p=%d j=%d error %g cond %g' % (n, p, j, e, cond))
    for t in range(2):
        x = X[:, [t]]
        z = (X[:, t] - base) / sY
        lv = np.array([float(np.ravel(eP(L, x, xb, scale, sh))[0]) for L in Ls])
        ev = np.ravel(eL(QZ, RZ, Y.copy(), np.arange(p), x, xb, wm, scale, sh))
        s2 = (1 + lsc) * (1 + z @ z)
        m.check(np.max(np.abs(lv - ev)) <= tol * s2, 'evalL-vs-computeLj@model%d' % wm, lambda: 'n=%d p=%d %g' % (n, p, np.max(np.abs(lv - ev))))
        sub = np.array(sorted(r.sample(range(p), r.randint(1, p))))
        es = np.ravel(eL(QZ, RZ, Y.copy(), sub, x, xb, wm, scale, sh))
        m.check(len(es) == p and np.max(np.abs(es[sub] - ev[sub])) <= tol * s2 and
                np.all(es[[i for i in range(p) if i not in sub]] == 0), 'evalL-subset@model%d' % wm, 'choice set')
        for k in range(2):
            got = float(np.ravel(eP(P[[k], :], x, xb, scale, sh))[0])
            m.check(abs(lv @ F[k] - got) <= tol * s2 * np.sum(np.abs(F[k])), 'lagrange-expansion@model%d' % wm, lambda: '%r != %r' % (lv @ F[k], got))
    # reproduction of linear / quadratic data
    deg = 2 if (p >= q) else (1 if wm in (0, 1) else 0)
    if deg:
        m.ev('reproduction')
        cf = np.array([r.gauss(0, 1) for _ in range(q)])
        if deg == 1:
            cf[n + 1:] = 0
        fY = np.array([[polyref.evalp(cf, Yz[:, i]) for i in range(p)]])
        Pq = cP(QZ, RZ, Y.copy(), fY, wm, np.zeros((1, q)), np.arange(p), 0, 0, np.zeros((n, 1)), scale, sh, 1.0)
        z = (X[:, 0] - base) / sY
        got = float(np.ravel(eP(Pq, X[:, [0]], xb, scale, sh))[0])
        m.check(abs(got - polyref.evalp(cf, z)) <= tol * 10 * (1 + z @ z), 'reproduction@model%d' % wm, lambda: 'degree %d n=%d p=%d: %r != %r' % (deg, n, p, got, polyref.evalp(cf, z)))
    m.nontrivial(n, p, wm, kind, sh, case['s'])
    m.sample(dict(n=n, p=p, model=wm, kind=kind, cond=cond, scale=sY))
