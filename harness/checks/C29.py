"""Multipliers and optimality measures in the result belong to the returned point, whatever the reason for stopping."""
import random
import re
import numpy as np
import e2e
import hooks
import probgen
import runner

RULE = ('case = smooth, hostile or slightly infeasible problem x random options and budgets; the result (multipliers, gradient, Jacobian, gradient of the '
        'Lagrangian, feasibility, their norms, printed tables) is judged at every exit; non-trivial = run with constraints or active bounds; '
        'distinct by (problem, options, flag, nsimul)')
ASSUMPTIONS = ['a bound counts as active within 1e-5', 'slack variables read through the package at the end of the run', 'runs stopped by failing evaluations excluded']
MIN = {'results': 150, 'with_bounds_active': 40, 'with_constraints': 80, 'with_inequalities': 40, 'least_squares': 120, 'tables': 60, 'flag_6': 30, 'flag_0': 30}


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 400, 4000, 29)]


def optimum(A, g, lo, up):
    from scipy.optimize import lsq_linear
    free = np.flatnonzero(lo < up)
    lm = np.zeros(len(lo))
    if len(free):
        lm[free] = lsq_linear(A[free].T, -g, (lo[free], up[free]), method='bvls' if len(free) < 12 else 'trf', tol=1e-14, max_iter=2000).x
    return lm


def run_case(case, m):
    s = case['s']
    rr = random.Random('C29-%s' % s)
    p = probgen.hostile(s) if rr.random() < 0.2 else probgen.general(s)
    o = probgen.rand_options(s)
    o['msimul'] = rr.choice([p.n + 2, 10, 20, 40, 100, 400])
    o['verbose'] = rr.choice([0, 1, 3, 3, 5])
    if rr.random() < .25:
        o['miter'] = rr.choice([1, 3, 8])
    if rr.random() < .2:
        o['tol_grad'] = o['tol_feas'] = 1e-11
    n, nc, mi = p.n, p.me + p.mi, p.mi
    end = {}

    def finish(a, k):
        import sqpdfo.sqpdfo_global_variables as glob
        if mi:
            end['sl'] = np.array(np.ravel(glob.get_slacks()), float)
    NAMES = ['QZ', 'RZ', 'Y', 'fY', 'wm']

    def model(a, k, P, tok):
        d = hooks.bind(None, NAMES, a, k)
        if np.shape(P)[0] == 1 + nc:
            end['P'], end['Y'] = np.array(P, float), np.array(d['Y'], float)
    with hooks.Hook() as h:
        h.wrap('bcdfo_computeP', 'bcdfo_computeP_', after=model)
        h.wrap('sqpdfo_finish', 'sqpdfo_finish_', before=finish)
        r = runner.run(p, o)
    for e in h.errors:
        m.ev('hook_error_' + type(e).__name__)
    if r.err or r.flag in (1, 2, 3):
        m.ev('no_result')
        return
    m.ev('results')
    m.ev('flag_%d' % r.flag)
    info, x = r.info, r.xv
    lm = np.ravel(np.asarray(r.lm, float))
    d = 'flag %r nsimul %d' % (r.flag, len(r.f))
    if not m.check(len(lm) == n + nc, 'multipliers-number', lambda: '%d for %d variables and %d constraints; %s' % (len(lm), n, nc, d)):
        return
    g = np.ravel(np.asarray(info.g, float))
    J = np.asarray(info.ae, float).reshape(nc, n) if nc else np.zeros((0, n))
    G = np.ravel(np.asarray(info.glag, float))
    lb, ub = [np.asarray(v, float).ravel() for v in (p.lb, p.ub)]
    nl, nu = np.abs(x - lb) < 1e-5, np.abs(x - ub) < 1e-5
    edge = (np.abs(np.abs(x - lb) - 1e-5) < 1e-9) | (np.abs(np.abs(x - ub) - 1e-5) < 1e-9)
    if np.any(edge) or not (np.all(np.isfinite(g)) and np.all(np.isfinite(J))):
        m.ev('on_the_threshold_or_not_finite')
        return
    if nc:
        m.ev('with_constraints')
    if np.any(nl | nu):
        m.ev('with_bounds_active')
    m.check(np.all(np.isfinite(lm)), 'multipliers-not-finite', lambda: '%r %s' % (lm.tolist(), d))
    m.check(np.all(lm[:n][~(nl | nu)] == 0), 'multiplier-of-inactive-bound', lambda: 'lm %r x %r lb %r ub %r %s' % (lm[:n].tolist(), x.tolist(), lb.tolist(), ub.tolist(), d))
    # sign: minimisation with lower bound active pushes the gradient up, multiplier <= 0
    atl, atu = np.abs(x - lb) < 0.9e-8, np.abs(x - ub) < 0.9e-8
    one = ~(nl & nu)
    sc = np.max(np.abs(lm)) + np.max(np.abs(g))
    m.check(np.all(lm[:n][atl & one] <= 1e-9 * sc) and np.all(lm[:n][atu & one] >= -1e-9 * sc), 'bound-multiplier-sign',
            lambda: 'lm %r at lower %r at upper %r %s' % (lm[:n].tolist(), atl.tolist(), atu.tolist(), d))
    # gradient of the Lagrangian
    want = g + lm[:n] + J.T @ lm[n:]
    size = np.abs(g) + np.abs(lm[:n]) + np.abs(J.T) @ np.abs(lm[n:])
    m.check(len(G) == n and np.all(np.abs(G - want) <= 1e-10 * size + 1e-300), 'gradient-of-the-lagrangian', lambda: '%r, gradient and multipliers give %r %s' % (G.tolist(), want.tolist(), d))
    m.check(abs(float(info.glagn) - np.max(np.abs(G))) <= 1e-12 * abs(float(info.glagn)), 'norm-of-the-gradient', lambda: '%r of %r %s' % (info.glagn, G.tolist(), d))
    # gradient and Jacobian are those of the last models at the returned point
    if 'P' in end:
        Y, P = end['Y'], end['P']
        rad = np.max(np.linalg.norm(Y - Y[:, [0]], axis=0))
        at = np.array_equal(Y[:, 0], x)
        m.ev('centred' if at else 'not_centred_flag_%d' % r.flag)
        if at and rad > 0 and P.shape[1] > n:
            sc2 = np.abs(P[:, 1:n + 1]).max(axis=1) + 1e-300
            for i, v in enumerate([g] + list(J)):
                m.check(np.all(np.abs(v * rad - P[i, 1:n + 1]) <= 1e-9 * sc2[i]), 'gradient-not-of-the-last-model', lambda: 'row %d %r, last model %r; %s' % (i, v.tolist(), (P[i, 1:n + 1] / rad).tolist(), d))
    # feasibility
    fe = float(np.ravel(info.feasn)[0])
    if nc:
        c = r.ce
        m.ev('with_inequalities', int(mi > 0))
        eq = np.max(np.abs(c[:p.me])) if p.me else 0.0
        if mi:
            low = max(eq, np.max(np.maximum(0, -c[p.me:])))
            m.check(fe >= low * (1 - 1e-12), 'feasibility-too-small', lambda: 'reported %r, constraints %r %s' % (fe, c.tolist(), d))
            if 'sl' in end and len(end['sl']) == mi:
                true = max(eq, np.max(np.abs(c[p.me:] - end['sl'] ** 2)))
                m.check(abs(fe - true) <= 1e-10 * (true + np.max(np.abs(c))), 'feasibility', lambda: 'reported %r, constraints %r slacks %r %s' % (fe, c.tolist(), end['sl'].tolist(), d))
        else:
            m.check(abs(fe - eq) <= 1e-12 * eq, 'feasibility', lambda: 'reported %r, constraints %r %s' % (fe, c.tolist(), d))
    else:
        m.check(fe == 0, 'feasibility', lambda: 'reported %r without constraints' % fe)
    # the multipliers leave the smallest gradient of the Lagrangian
    if mi == 0 or ('sl' in end and len(end['sl']) == mi):
        S = np.zeros((nc, mi))
        for i in range(mi):
            S[p.me + i, i] = -2 * end['sl'][i]
        A = np.vstack([np.hstack([np.eye(n), np.zeros((n, mi))]), np.hstack([J, S])])
        gg = np.concatenate([g, np.zeros(mi)])
        lo, up = np.zeros(n + nc), np.zeros(n + nc)
        lo[n:], up[n:] = -np.inf, np.inf
        for i in range(n):
            if nl[i]:
                lo[i], up[i] = -np.inf, (0 if atl[i] else np.inf)
            if nu[i]:
                up[i] = np.inf if not (nl[i] and atl[i]) else 0
                lo[i] = 0 if atu[i] else -np.inf
        free = np.flatnonzero(lo < up)
        sv = np.linalg.svd(A[free], compute_uv=False) if len(free) else np.array([1.0])
        cond = sv[0] / sv[-1] if sv[-1] > 0 and len(free) <= n + mi else np.inf
        if not np.any(nl & nu) and cond < 1e4 and not np.any((nl & ~atl) | (nu & ~atu)):
            m.ev('least_squares')
            best = optimum(A, gg, lo, up)
            a, b = np.linalg.norm(gg + A.T @ lm), np.linalg.norm(gg + A.T @ best)
            m.check(a <= b * (1 + 1e-5) + 1e-9 * cond * np.linalg.norm(gg) + 1e-8 * cond / sv[-1] * np.max(np.abs(best)) + 1e-9 * cond, 'multipliers-not-least-squares',
                    lambda: '|gradient of the Lagrangian| %r, possible %r; lm %r best %r; cond %g sv %r g %g %s' % (a, b, lm.tolist(), best.tolist(), cond, sv.tolist(), np.linalg.norm(gg), d))
    # printed tables
    if o['verbose'] >= 3:
        t = r.out[r.out.rfind('Exit code'):]
        close = lambda v, w: abs(float(v) - w) <= 2e-6 * abs(w) + 1e-300
        rows = re.findall(r'^ *(\d+)((?: +[-+]\S+)+) *$', t.split('VARIABLES:')[1].split('Equality constraints')[0] if 'VARIABLES:' in t else '', re.M)
        if rows:
            m.ev('tables')
            ok = len(rows) == min(n, 40) and all(close(v[1].split()[k], w[i]) for i, v in enumerate(rows) for k, w in ((1, x), (3, lm)))
            m.check(ok, 'printed-variables', lambda: '%r, x %r lm %r' % (rows, x.tolist(), lm.tolist()))
        if 'Equality constraints' in t and nc:
            rows = re.findall(r'^ *(\d+)((?: +[-+]\S+)+) *$', t.split('Equality constraints')[1], re.M)
            m.ev('constraint_tables')
            ok = len(rows) == min(nc, 40) and all(close(v[1].split()[k], w[i]) for i, v in enumerate(rows) for k, w in ((0, r.ce), (1, lm[n:])))
            m.check(ok, 'printed-constraints', lambda: '%r, ce %r lm %r' % (rows, r.ce.tolist(), lm.tolist()))
    if nc or np.any(nl | nu):
        m.nontrivial(p.desc(), o, r.flag, r.nsimul)
        m.sample(dict(problem=p.desc(), options=o, flag=r.flag, lm=lm.tolist(), glagn=float(info.glagn), feasn=fe))
