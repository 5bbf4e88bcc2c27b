"""Bounded least squares and least-squares multipliers: optimal, feasible signs, exact multipliers recovered."""
import itertools
import random
import numpy as np

RULE = ('case = random bound-constrained least-squares problem (n 1-5, rank-deficient, badly scaled, normal-equation form) compared with the best '
        'of all active sets, plus a random stationary point (bounds active or not, independent or dependent constraint gradients, slack '
        'variables) whose exact multipliers are known; non-trivial = some bound active in the solution; distinct by (kind, n, seed)')
ASSUMPTIONS = ['lo < up componentwise', 'tolerance 1e-6 relative plus the square root of the accuracy of the normal equations']
MIN = {'least_squares': 300, 'multipliers': 300, 'unique_multipliers': 100, 'least_squares_multipliers': 60, 'with_slacks': 50, 'measures': 300}


def cases(tier, seed):
    n = 1600 if tier == 'quick' else 24000
    return [dict(s=seed * 1000003 + i) for i in range(n)]


def refsolve(A, b, lo, up):
    n = A.shape[1]
    best = None
    for st in itertools.product((0, 1, 2), repeat=n):
        if any((t == 1 and not np.isfinite(lo[i])) or (t == 2 and not np.isfinite(up[i])) for i, t in enumerate(st)):
            continue
        s = np.array([0.0 if t == 0 else lo[i] if t == 1 else up[i] for i, t in enumerate(st)])
        fr = [i for i in range(n) if st[i] == 0]
        if fr:
            s[fr] = np.linalg.lstsq(A[:, fr], b - A @ s, rcond=None)[0]
        sp = np.clip(s, lo, up)
        if np.max(np.abs(sp - s)) <= 1e-9 * (1 + np.max(np.abs(s))):
            v = float(np.linalg.norm(A @ sp - b))
            if best is None or v < best:
                best = v
    return best


def least_squares(r, m, case):
    from sqpdfo.blls import blls_
    G = lambda: r.gauss(0, 1)
    n = r.choice([1, 2, 3, 3, 4, 5])
    mm = r.choice([n, n, n + 2, max(1, n - 1)])
    A = np.array([[G() for _ in range(n)] for _ in range(mm)])
    kind = r.choice(['full', 'full', 'lowrank', 'scaled', 'columns', 'spd'])
    if kind == 'lowrank' and n > 1:
        A[:, -1] = A[:, 0]
    if kind == 'scaled':
        A = A * 10 ** r.uniform(-3, 3)
    if kind == 'columns':
        A = A * np.array([10 ** r.uniform(-3, 1) for _ in range(n)])
    if kind == 'spd':
        A = A.T @ A
        mm = n
    b = np.array([G() for _ in range(mm)]) * 10 ** r.uniform(-2, 2)
    lo = np.array([r.choice([-np.inf, -np.inf, -abs(G()), 0.0]) for _ in range(n)])
    up = np.array([r.choice([np.inf, np.inf, abs(G()) + .01, 0.0]) for _ in range(n)])
    for i in range(n):
        if up[i] <= lo[i]:
            up[i] = lo[i] + 1
    Ac = A.copy()
    s, rn, opt, ec = blls_(Ac, b.reshape(-1, 1).copy(), lo.reshape(-1, 1).copy(), up.reshape(-1, 1).copy())
    m.ev('least_squares')
    m.ev('exit_code_%d' % ec)
    shp = np.shape(s)
    s = np.asarray(s, float).ravel()
    d = lambda: 'kind %s n=%d m=%d exit %d s=%r lo=%r up=%r' % (kind, n, mm, ec, s.tolist(), lo.tolist(), up.tolist())
    if not m.check(shp == (n, 1) and np.all(np.isfinite(s)), 'ls-shape', d):
        return
    m.check(np.all(s >= lo - 1e-12) and np.all(s <= up + 1e-12), 'ls-outside-bounds', d)
    v = float(np.linalg.norm(A @ s - b))
    m.check(abs(v - float(np.ravel(rn)[0])) <= 1e-9 * (1 + v + np.linalg.norm(b)), 'ls-residual-norm', lambda: '%s residual %r reported %r' % (d(), v, rn))
    m.check(np.array_equal(A, Ac), 'ls-arguments-modified', d)
    ref = refsolve(A, b, lo, up)
    slow = v > ref * (1 + 1e-6) + 1e-6 * min(1.0, float(np.linalg.norm(b)) or 1)
    if ec == 0:
        m.check(not slow, 'ls-not-optimal', lambda: '%s residual %r best %r' % (d(), v, ref))
    m.data.append([ec == 0, bool(not slow)])
    if np.any(s == lo) or np.any(s == up):
        m.ev('ls_bound_active')
        m.nontrivial('ls', kind, n, case['s'])


class O:
    verbose = 0
    fout = 1
    inf = 1e20
    dxmin = 1e-6


class Info:
    pass


def multipliers(r, m, case):
    from sqpdfo.sqpdfo_compute_multiplier import sqpdfo_compute_multiplier_ as cm
    from sqpdfo.sqpdfo_values import sqpdfoValues
    import sqpdfo.sqpdfo_global_variables as glob
    G = lambda: r.gauss(0, 1)
    n = r.choice([1, 2, 3, 3, 4, 5])
    me = r.randint(0, min(3, n))
    mi = r.choice([0, 0, 1, 2, 3])
    J = np.array([[G() for _ in range(n)] for _ in range(me + mi)]).reshape(me + mi, n)
    if me + mi > 1 and r.random() < .15:
        J[-1] = J[0]
    x = np.array([G() for _ in range(n)])
    # the caller passes active bounds only (the others as infinite)
    lb = np.array([r.choice([-1e20, -np.inf]) for i in range(n)])
    ub = np.array([r.choice([1e20, np.inf]) for i in range(n)])
    lamb = np.zeros(n)
    act = np.zeros(n, int)
    for i in range(n):
        t = r.random()
        if t < .25:
            lb[i] = x[i]
            lamb[i] = -abs(G())
            act[i] = -1
            if r.random() < .3:
                ub[i] = x[i] + r.choice([1e-3, .5, 100.0])      # the other bound given, but not active
            if r.random() < .2:
                lb[i] = x[i] - 3e-7
        elif t < .45:
            ub[i] = x[i]
            lamb[i] = abs(G())
            act[i] = 1
            if r.random() < .3:
                lb[i] = x[i] - r.choice([1e-3, .5, 100.0])
            if r.random() < .2:
                ub[i] = x[i] + 3e-7
    sl = np.array([0.0 if r.random() < .5 else .3 + r.random() for _ in range(mi)])
    lamc = np.array([G() for _ in range(me)] + [0.0 if sl[k] else -abs(G()) for k in range(mi)])
    sc = 10 ** r.uniform(-2, 2)
    g = -(lamb + J.T @ lamc) * sc
    lamb, lamc = lamb * sc, lamc * sc
    noise = r.random() < .35
    if noise:
        # not a stationary point: the multipliers are those of least squares under the sign conditions
        g = g + sc * np.array([G() for _ in range(n)])
    info = Info()
    info.g = g.reshape(-1, 1).copy()
    info.ae = J.copy() if me + mi else np.array([])
    info.flag = 0
    try:
        glob.set_nbr_slacks(mi)
        glob.set_slacks(sl.reshape(-1, 1).copy() if mi else None)
        lm, _ = cm(x.reshape(-1, 1).copy(), lb.reshape(-1, 1).copy(), ub.reshape(-1, 1).copy(), info, O(), sqpdfoValues())
    finally:
        glob.set_nbr_slacks(0)
        glob.set_slacks(None)
    m.ev('multipliers')
    if mi:
        m.ev('with_slacks')
    lm = np.asarray(lm, float).ravel()
    d = lambda: 'n=%d me=%d mi=%d lm=%r exact=%r act=%r slacks=%r' % (n, me, mi, lm.tolist(), np.concatenate([lamb, lamc]).tolist(), act.tolist(), sl.tolist())
    if not m.check(len(lm) == n + me + mi and np.all(np.isfinite(lm)), 'mult-shape', d):
        return
    b = lm[:n]
    m.check(np.all(b[act == 0] == 0), 'mult-inactive-bound', d)
    m.check(np.all(b[act == -1] <= 1e-12 * sc) and np.all(b[act == 1] >= -1e-12 * sc), 'mult-bound-sign', d)
    # stationarity (with the slack rows)
    rows = np.concatenate([np.eye(n), np.zeros((n, mi))], axis=1)[act != 0]
    con = np.concatenate([J, np.concatenate([np.zeros((me, mi)), -2 * np.diag(sl)])], axis=1) if me + mi else np.zeros((0, n + mi))
    B = np.concatenate([rows, con])
    if B.size:
        sv = np.linalg.svd(B, compute_uv=False)
    else:
        sv = np.array([1.0])
    cond = sv[0] / sv[-1] if B.shape[0] <= B.shape[1] and sv[-1] > 0 else np.inf
    res = np.concatenate([g, np.zeros(mi)]) + np.concatenate([b, np.zeros(mi)]) + (con.T @ lm[n:] if me + mi else 0)
    gn = float(np.linalg.norm(g)) + sc
    # the normal equations are convexified by about 1e-9, absolutely
    acc = 1e-6 * max(1.0, 1.0 / sv[-1] ** 2) if sv[-1] > 0 else np.inf
    if cond < 1e3 and acc < 1e-2:
        m.ev('unique_multipliers')
        if noise:
            m.ev('least_squares_multipliers')
            low = np.concatenate([np.where(act == 1, 0, -np.inf)[act != 0], np.full(me + mi, -np.inf)])
            upp = np.concatenate([np.where(act == -1, 0, np.inf)[act != 0], np.full(me + mi, np.inf)])
            z = np.zeros(n + me + mi)
            if B.size:
                from scipy.optimize import lsq_linear
                y = lsq_linear(B.T, -np.concatenate([g, np.zeros(mi)]), (low, upp), tol=1e-14).x
                z[:n][act != 0] = y[:int(np.sum(act != 0))]
                z[n:] = y[int(np.sum(act != 0)):]
            m.check(np.max(np.abs(lm - z)) <= max(acc, 1e-6 * cond ** 2) * gn, 'mult-not-least-squares', lambda: '%s least squares %r cond %g' % (d(), z.tolist(), cond))
            return
        m.check(np.linalg.norm(res) <= max(acc, 1e-6 * cond ** 2) * gn, 'mult-not-stationary', lambda: '%s residual %r cond %g' % (d(), np.linalg.norm(res), cond))
        m.check(np.max(np.abs(lm - np.concatenate([lamb, lamc]))) <= max(acc, 1e-6 * cond ** 2) * gn, 'mult-wrong-values', lambda: '%s cond %g' % (d(), cond))
    elif not noise:
        m.ev('dependent_gradients')
        m.data.append([None, bool(np.linalg.norm(res) <= 1e-3 * gn)])
    if np.any(act):
        m.nontrivial('mult', n, me, mi, case['s'])
        m.sample(dict(n=n, me=me, mi=mi, lm=lm, cond=float(min(cond, 1e300))))


def measures(r, m, case):
    from sqpdfo.sqpdfo_optimality import sqpdfo_optimality_ as opt
    import sqpdfo.sqpdfo_global_variables as glob
    G = lambda: r.gauss(0, 1)
    n = r.choice([1, 2, 3, 4])
    me, mi = r.choice([0, 1, 2]), r.choice([0, 0, 1, 2])
    mc = me + mi
    x = np.array([G() for _ in range(n)])
    lb, ub = np.full(n, -1e20), np.full(n, 1e20)
    near = np.zeros(n, bool)
    for i in range(n):
        t = r.random()
        dist = r.choice([0.0, 1e-7, 1e-3, 1.0])
        if t < .3:
            lb[i] = x[i] - dist
            near[i] = dist < 1e-5
        elif t < .6:
            ub[i] = x[i] + dist
            near[i] = dist < 1e-5
    J = np.array([[G() for _ in range(n)] for _ in range(mc)]).reshape(mc, n)
    ce = np.array([G() for _ in range(mc)]) * 10 ** r.uniform(-6, 1)
    sl = np.array([abs(G()) * r.choice([0, 1]) for _ in range(mi)])
    g, lm = np.array([G() for _ in range(n)]), np.array([G() for _ in range(n + mc)])
    info = Info()
    info.g, info.ae, info.ce, info.ci = g.reshape(-1, 1).copy(), J.copy() if mc else np.array([]), ce.reshape(-1, 1).copy() if mc else np.array([]), np.array([])
    info.flag = 0
    L = np.concatenate([lb, np.zeros(mi)]).reshape(-1, 1)[:n]
    U = np.concatenate([ub, np.full(mi, 1e20)]).reshape(-1, 1)[:n]
    try:
        glob.set_nbr_slacks(mi)
        glob.set_slacks(sl.reshape(-1, 1).copy() if mi else None)
        feas, comp, inf2 = opt(x.reshape(-1, 1).copy(), lm.reshape(-1, 1).copy(), L, U, info, O())
    finally:
        glob.set_nbr_slacks(0)
        glob.set_slacks(None)
    m.ev('measures')
    want = g + np.where(near, lm[:n], 0) + (J.T @ lm[n:] if mc else 0)
    got = np.ravel(np.asarray(inf2.glag, float))
    d = lambda: 'n=%d me=%d mi=%d got %r expected %r' % (n, me, mi, got.tolist(), want.tolist())
    m.check(got.shape == want.shape and np.max(np.abs(got - want)) <= 1e-12 * (1 + np.max(np.abs(want))) * 10, 'lagrangian-gradient', d)
    m.check(np.array_equal(np.ravel(info.g), g), 'measures-modify-arguments', d)
    fe = np.ravel(np.asarray(feas, float))
    if mc:
        true = max([abs(v) for v in ce[:me]] + [max(0.0, -v) for v in ce[me:]])
        m.check(len(fe) == mc and np.max(np.abs(fe)) >= true * (1 - 1e-12), 'feasibility-understated', lambda: '%r, true violation %r' % (fe.tolist(), true))
        m.check(np.max(np.abs(fe[:me] - ce[:me])) <= 1e-14 * np.max(np.abs(ce)) if me else True, 'feasibility-equalities', lambda: repr(fe.tolist()))
        m.check(np.max(np.abs(fe[me:] - (ce[me:] - sl ** 2))) <= 1e-13 * (1 + np.max(np.abs(ce))) if mi else True, 'feasibility-slacks', lambda: repr(fe.tolist()))


def run_case(case, m):
    r = random.Random('C18-%s' % case['s'])
    least_squares(r, m, case)
    multipliers(r, m, case)
    measures(r, m, case)


def finalize(data, counts, tier):
    out = []
    ls = [d for _, d in data if d[0] is not None]
    dep = [d for _, d in data if d[0] is None]
    counts['rate:least squares optimal'] = sum(d[1] for d in ls)
    counts['rate:least squares exit 0'] = sum(d[0] for d in ls)
    counts['rate:stationary with dependent gradients'] = sum(d[1] for d in dep)
    counts['rate-total:dependent gradients'] = len(dep)
    if len(ls) > 300:
        if sum(d[1] for d in ls) < .998 * len(ls):
            out.append((data[0][0], 'rate-ls-optimal', '%d of %d' % (sum(d[1] for d in ls), len(ls))))
        if sum(d[0] for d in ls) < .97 * len(ls):
            out.append((data[0][0], 'rate-ls-exit', '%d of %d' % (sum(d[0] for d in ls), len(ls))))
    return out
