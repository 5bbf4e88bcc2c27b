"""Composite step of the constrained problem: restoration plus tangent step, in the box and the region, with a truthful predicted reduction."""
import random
import numpy as np
import hooks
import trref

RULE = ('case = random Jacobian/constraint values/gradient/Hessian (n 1-5, up to 3 equalities and 2 inequalities with slack variables) x radius, '
        'with or without bounds near x; non-trivial = every case; distinct by (n, m, mi, bounds, kind, seed)')
ASSUMPTIONS = ['x inside the bounds', 'exact statements for equalities without bounds (restoration gradient above 1e-5); with bounds or slack '
               'variables the step is a heuristic: only box, size, sign and rates are asserted']
MIN = {'plain': 300, 'plain_restoration': 150, 'plain_tangent': 150, 'slack_truth': 150, 'model_decrease': 6000, 'feasible_start': 100, 'bounded': 400, 'with_slacks': 300}
EPS = 1e-6


def cases(tier, seed):
    n = 12000 if tier == 'quick' else 200000
    return [dict(s=seed * 1000003 + i) for i in range(n)]


class O:
    verbose = 0
    fout = 1
    inf = 1e20
    dxmin = 1e-6
    tol_feas = 1e-5


class Info:
    pass


def run_case(case, m):
    from sqpdfo.sqpdfo_solve_TR_bc import sqpdfo_solve_TR_bc_ as step
    from sqpdfo.sqpdfo_values import sqpdfoValues
    import sqpdfo.sqpdfo_global_variables as glob
    r = random.Random('C25-%s' % case['s'])
    G = lambda: r.gauss(0, 1)
    n = r.choice([1, 2, 3, 4, 5])
    mi = r.choice([0, 0, 1, 2])
    mc = r.randint(0 if mi else 1, min(n, 3)) + mi
    J = np.array([[G() for _ in range(n)] for _ in range(mc)]) * 10 ** r.uniform(-1, 1)
    c = np.array([G() for _ in range(mc)]) * r.choice([0, 0, 1e-3, 1, 1, 100])
    sl = np.array([abs(G()) * r.choice([0, 1, 1]) for _ in range(mi)])
    ce = c + np.concatenate([np.zeros(mc - mi), sl ** 2])
    kind, g, H = trref.rand_quadratic(r, n, ['spd', 'spd', 'indef', 'neg', 'singular', 'zero'], (-2, 2), (-2, 2))
    D = 10 ** r.uniform(-3, 1)
    x = np.array([G() for _ in range(n)])
    lb, ub = np.full(n, -1e20), np.full(n, 1e20)
    bounds = r.random() < .4
    if bounds:
        for i in range(n):
            if r.random() < .5:
                lb[i] = x[i] - r.choice([0, abs(G()) * D, abs(G())])
            if r.random() < .5:
                ub[i] = x[i] + r.choice([0, abs(G()) * D, abs(G())])
            if ub[i] - lb[i] < 1e-8:
                ub[i] = lb[i] + 1
    info = Info()
    info.g, info.ae, info.ce = g.reshape(-1, 1).copy(), J.copy(), ce.reshape(-1, 1).copy()
    info.ci = info.ai = np.array([])
    info.flag, info.niter = 0, 3
    lm = np.array([0.0] * n + [G() for _ in range(mc)]).reshape(-1, 1)
    L = np.concatenate([lb, np.zeros(mi)]).reshape(-1, 1)
    U = np.concatenate([ub, 1e20 * np.ones(mi)]).reshape(-1, 1)
    args = dict(x=x.reshape(-1, 1).copy(), L=L.copy(), U=U.copy(), M=H.copy(), lm=lm.copy(), g=g.reshape(-1, 1).copy())
    keep = {k: v.copy() for k, v in args.items()}
    rec, tan = [], []
    h = hooks.Hook()
    # the partial steps, for the exact statements
    h.wrap('bcdfo_solve_TR_MS_bc', 'bcdfo_solve_TR_MS_bc_', after=lambda a, k, res, tok: rec.append(np.ravel(np.asarray(res[0], float))))
    h.wrap('sqpdfo_truncated_cg', 'sqpdfo_truncated_cg_', after=lambda a, k, res, tok: tan.append(np.ravel(np.asarray(res[0], float))))
    try:
        glob.set_nbr_slacks(mi)
        glob.set_slacks(sl.reshape(-1, 1).copy() if mi else None)
        glob.set_threshold(1e-8)
        xn, dT, rp, ar, at, lc, lm2, info2, sln = step(None, args['x'], args['L'], args['U'], D, 0, mc, args['M'], EPS, EPS, info, O(),
                                                       sqpdfoValues(), False, args['lm'], np.array([]), np.array([]), args['g'], np.arange(n))
    finally:
        h.remove()
        glob.set_nbr_slacks(0)
        glob.set_slacks(None)
    shp = np.shape(xn)
    s = np.ravel(np.asarray(xn, float)) - x
    d0 = lambda: 'n=%d m=%d mi=%d %s bounds=%s D=%g seed %s' % (n, mc, mi, kind, bounds, D, case['s'])
    if not m.check(shp == (n, 1) and np.all(np.isfinite(s)), 'shape', d0):
        return
    m.check(all(np.array_equal(args[k], keep[k]) for k in args), 'arguments-modified', d0)
    slp = np.ravel(np.asarray(sln, float)) if mi else np.zeros(0)
    rp = float(np.ravel(rp)[0])
    w = np.concatenate([s, slp - sl])
    A = np.concatenate([J, np.concatenate([np.zeros((mc - mi, mi)), -2 * np.diag(sl)])], axis=1)
    cn = float(np.linalg.norm(c))
    true = cn - float(np.linalg.norm(c + A @ w))
    q = float(g @ s + .5 * s @ H @ s)
    hn = float(np.linalg.norm(H))
    mag = float(np.linalg.norm(g)) * float(np.linalg.norm(s)) + hn * float(s @ s)
    d = lambda: '%s |w|/D=%g rpred=%r true=%r |c|=%g q=%g' % (d0(), np.linalg.norm(w) / D, rp, true, cn, q)
    m.check(np.all(x + s >= lb - 1e-7) and np.all(x + s <= ub + 1e-7), 'outside-box', d)
    m.check(len(slp) == mi, 'slack-count', d)
    m.check(np.all(slp >= -1e-12 * (1 + np.max(sl, initial=0))), 'negative-slack', lambda: '%s slacks %r' % (d(), slp.tolist()))
    m.check(np.linalg.norm(w) <= 2 * D * (1 + 1e-4), 'step-too-long', d)
    r0 = rec[0][:n] if rec else np.zeros(n)
    qr = float(g @ r0 + .5 * r0 @ H @ r0)
    magr = mag + float(np.linalg.norm(g)) * float(np.linalg.norm(r0)) + hn * float(r0 @ r0)
    known_r = len(rec) == 1 or not rec and float(np.linalg.norm(A.T @ c)) <= 1e-14      # the restoration step is skipped at such points
    if known_r:
        m.ev('model_decrease')
        m.check(q - qr <= 1e-9 * magr, 'tangent-increases-model', lambda: '%s model at the restored point %r' % (d(), qr))
    m.check(rp >= -1e-9 * (1 + cn), 'negative-restoration-prediction', d)
    m.check(abs(float(np.ravel(dT)[0]) - D) <= 1e-12 * D or bounds or mi, 'radius-changed', d)
    m.ev('with_slacks' if mi else 'no_slacks')
    if cn <= 1e-14:
        m.ev('feasible_start')
        m.check(q <= 1e-9 * mag + 1e-12, 'uphill-from-feasible', d)
    if bounds:
        m.ev('bounded')
        if not mi:
            m.ev('bounded_truth')
            m.check(true >= rp - 1e-6 * cn - 1e-9 * np.linalg.norm(J) * np.linalg.norm(s), 'over-predicted-reduction', d)
            m.check(true >= -1e-6 * cn - 1e-9 * np.linalg.norm(J) * np.linalg.norm(s), 'linearised-violation-increased', d)
        if len(tan) >= 2:
            m.ev('several_tangent_steps')
    if mi and not bounds:
        # a tangent step that would make a slack variable negative is dropped for that variable alone; without that, the step is as predicted
        kept = sl + rec[0][n:] if len(rec) == 1 and len(rec[0]) == n + mi else sl
        if known_r and (np.all(np.abs(slp - kept) > 1e-12 * (1 + sl)) or n + mi <= mc):
            m.ev('slack_truth')
            m.check(abs(true - rp) <= 1e-6 * cn + 1e-9 * np.linalg.norm(A) * np.linalg.norm(w), 'predicted-reduction-slack', d)
    if mi:
        m.data.append(['slack', bool(bounds), min(len(tan), 3), bool(true >= -1e-6 * cn - 1e-9 * np.linalg.norm(A) * np.linalg.norm(w)),
                       bool(true >= rp - 1e-6 * cn - 1e-9 * np.linalg.norm(A) * np.linalg.norm(w))])
    if not bounds and mi == 0:
        m.ev('plain')
        sv = np.linalg.svd(J, compute_uv=False)
        m.check(abs(rp - true) <= 1e-6 * cn + 1e-9 * np.linalg.norm(J) * np.linalg.norm(s), 'predicted-reduction', d)
        P = np.linalg.pinv(J) @ J
        rr = P @ s
        if len(rec) == 1 and len(rec[0]) == n:
            rr = rec[0]
            m.check(np.linalg.norm(J @ (s - rr)) <= 1e-8 * (1 + np.linalg.norm(J)) * (1 + np.linalg.norm(s)), 'tangent-leaves-linearisation', d)
        elif cn > 1e-14 and np.linalg.norm(P @ rr - rr) > 1e-9:
            return
        t = s - rr
        m.check(np.linalg.norm(rr) <= D * (1 + 1e-5) and np.linalg.norm(t) <= D * (1 + 1e-5), 'partial-step-too-long', d)
        if np.linalg.norm(J.T @ c) > 1e-5 and sv[-1] > 1e-3 * sv[0]:
            m.ev('plain_restoration')
            ref = float(np.sqrt(max(0.0, c @ c + 2 * trref.tr_min(J.T @ c, J.T @ J, D))))
            m.check(cn - true <= ref + 1e-4 * cn, 'restoration-not-optimal', lambda: '%s best residual %r' % (d(), ref))
            m.check(bool(ar) == (D - np.linalg.norm(rr) < 1e-5 * D) or abs(np.linalg.norm(rr) - D) < 1e-4 * D, 'restoration-boundary-flag', lambda: '%s |r|=%r active %r' % (d(), np.linalg.norm(rr), ar))
            if abs(np.linalg.norm(rr) - D) < 1e-6 * D:
                m.data.append(['edge', bool(ar)])
        if mc < n and sv[-1] > 1e-3 * sv[0]:
            m.ev('plain_tangent')
            Z = np.linalg.svd(J)[2][mc:].T
            gt = Z.T @ (g + H @ rr)
            Mt = Z.T @ H @ Z
            u = Z.T @ t
            qt = float(gt @ u + .5 * u @ Mt @ u)
            inf = np.full(n - mc, np.inf)
            if np.linalg.norm(gt) > 1e-5:
                ca = trref.cauchy(gt, Mt, -inf, inf, D)
                m.check(qt <= .999 * ca + 1e-9 * mag, 'tangent-below-cauchy', lambda: '%s tangent decrease %r Cauchy %r' % (d(), qt, ca))
                ev = np.linalg.eigvalsh(Mt)
                if ev[0] > 1e-3 * max(1.0, ev[-1]) and np.linalg.norm(np.linalg.solve(Mt, gt)) < .98 * D:
                    m.ev('newton_tangent')
                    m.check(np.linalg.norm(gt + Mt @ u) <= 1e-5 * (1 + np.linalg.norm(gt)), 'tangent-not-stationary', lambda: '%s reduced gradient %r' % (d(), (gt + Mt @ u).tolist()))
                    m.check(not at, 'tangent-boundary-flag', d)
                elif ev[0] < -1e-3 * hn:
                    m.ev('negative_curvature_tangent')
                    m.check(bool(at) and abs(np.linalg.norm(u) - D) <= 1e-5 * D, 'tangent-boundary-flag', d)
    if cn > 0:
        lo = np.maximum(np.concatenate([lb - x, -sl]), -D)
        up = np.minimum(np.concatenate([ub - x, np.full(mi, 1e20)]), D)
        ca = trref.cauchy(A.T @ c, A.T @ A, lo, up, D)
        possible = ca < -.05 * cn * cn
        m.data.append([bool(bounds or mi), bool(true >= -1e-6 * cn), bool(possible), bool(true > 0.01 * cn), bool(rp > .01 * cn)])
    m.nontrivial(n, mc, mi, bounds, kind, case['s'])
    m.sample(dict(n=n, m=mc, mi=mi, bounds=bounds, kind=kind, D=D, length=float(np.linalg.norm(w)), rpred=rp, true=true))


def finalize(data, counts, tier):
    out = []
    slack = [x for _, x in data if x[0] == 'slack']
    d = [x for _, x in data if x[0] is True]
    ok = sum(x[1] for x in d)
    pos = [x for x in d if x[2]]
    counts['rate-total:bounded or slack steps from infeasible points'] = len(d)
    counts['rate:linearised violation not increased'] = ok
    counts['rate-total:clear decrease possible'] = len(pos)
    counts['rate:clear decrease achieved'] = sum(x[3] for x in pos)
    counts['rate:clear decrease predicted'] = sum(x[4] for x in pos)
    for b in (False, True):
        for k in (0, 1, 2, 3):
            z = [x for x in slack if x[1] is b and x[2] == k]
            name = 'slack variables, %s, %d tangent steps' % ('bounds' if b else 'no bounds', k)
            counts['rate-total:' + name] = len(z)
            counts['rate:violation not increased; ' + name] = sum(x[3] for x in z)
            counts['rate:reduction as predicted; ' + name] = sum(x[4] for x in z)
    for key, col, lims in (('rate-slack-violation-increased', 3, (.99, .95, .955, .90)), ('rate-slack-not-as-predicted', 4, (.99, .915, .925, .86))):
        for i, sel in enumerate((lambda x: x[2] == 0, lambda x: x[2] == 1 and not x[1], lambda x: x[2] == 1 and x[1], lambda x: x[2] >= 2)):
            z = [x for x in slack if sel(x)]
            if len(z) > 250 and sum(x[col] for x in z) < lims[i] * len(z):
                out.append((data[0][0], key, 'group %d: %d of %d' % (i, sum(x[col] for x in z), len(z))))
    edge = [x[1] for _, x in data if x[0] == 'edge']
    counts['rate-total:restoration on the boundary'] = len(edge)
    counts['rate:restoration reported on the boundary'] = sum(edge)
    if len(edge) > 250 and sum(edge) < .93 * len(edge):
        out.append((data[0][0], 'rate-restoration-boundary-flag', '%d of %d' % (sum(edge), len(edge))))
    if len(d) > 200:
        for key, got, tot, lim in (('rate-violation-increased', ok, len(d), .96), ('rate-no-decrease', sum(x[3] for x in pos), len(pos), LIM1),
                                   ('rate-no-prediction', sum(x[4] for x in pos), len(pos), LIM2)):
            if got < lim * tot:
                out.append((data[0][0], key, '%d of %d' % (got, tot)))
    return out


LIM1, LIM2 = .92, .97
