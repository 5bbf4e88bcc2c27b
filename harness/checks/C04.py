"""Bounds: initial points, trial points and the returned point lie inside the bounds."""
import random
import numpy as np
import e2e
import hooks
import probgen
import runner

RULE = ('case = smooth or hostile problem with finite bounds on some variables (box/one-sided/narrow/tight, x0 inside or far outside) '
        'x random options; trial points are observed by hooking the step computation; non-trivial = some evaluated point within 1e-8 '
        'of a bound; distinct by (problem, options, flag, nsimul)')
ASSUMPTIONS = ['lower bound < upper bound in every component', 'tolerance 1e-8*max(1,|bound|)',
               'points evaluated to repair the interpolation set are exempt']
MIN = {'runs': 60, 'initial_points': 200, 'returned_points': 60, 'trial_points_evaluated': 300}


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 380, 3500, 4)]


def out_of(lb, ub, x):
    x = np.asarray(x, float).ravel()
    t = 1e-8 * np.maximum(1, np.minimum(np.abs(np.where(np.isfinite(lb), lb, 0)) + np.abs(np.where(np.isfinite(ub), ub, 0)), 1e19))
    return float(np.max(np.maximum(lb - x, x - ub) - t))


def run_case(case, m):
    s = case['s']
    rr = random.Random('C04-%s' % s)
    if rr.random() < 0.3:
        p = probgen.hostile(s)
    else:
        p = probgen.general(s, bounds=['box', 'some', 'tight', 'lower', 'tight', 'box'])
    lb, ub = np.array(p.lb), np.array(p.ub)
    if not (np.any(lb > -1e19) or np.any(ub < 1e19)):
        # force one side
        for i in range(p.n):
            if rr.random() < .7:
                p.lb[i] = p.x0[i] - rr.random()
        lb = np.array(p.lb)
    o = probgen.rand_options(s)
    o['msimul'] = rr.choice([20, 60, 120, 200])
    trial = []
    nxt = []
    count = [0]
    f0 = p.f

    def counted(x):
        count[0] += 1
        return f0(x)
    p.f = counted
    raw = {}
    if rr.random() < 0.1:
        p.x0 = np.round(p.x0)
        raw['x0'] = p.x0.reshape(-1, 1).astype(int)
        m.ev('integer_start')

    def after(a, k, r, tok):
        try:
            xnew = np.array(r[0], float).ravel()
            trial.append(xnew)
            nxt.append(count[0])
        except Exception:
            m.ev('hook_unreadable')
    with hooks.Hook() as h:
        h.wrap('sqpdfo_solve_TR_bc', 'sqpdfo_solve_TR_bc_', after=after)
        r = runner.run(p, o, raw=raw)
    if r.err:
        m.ev('crashed')
        return
    if r.flag in (1, 2):
        return
    m.ev('runs')
    init = r.f[:p.n + 1]
    m.ev('initial_points', len(init))
    for k, (x, v) in enumerate(init):
        if not m.check(out_of(lb, ub, x) <= 0, 'initial-point-outside', lambda: 'evaluation %d: %r lb=%r ub=%r' % (k, x, lb.tolist(), ub.tolist())):
            break
    # the evaluation that follows a step computation is the trial point
    for x, k in zip(trial, nxt):
        if k < len(r.f):
            m.ev('trial_points_evaluated')
            y = np.array(r.f[k][0])
            if not m.check(out_of(lb, ub, y) <= 0, 'trial-point-outside', lambda: '%r (step computation: %r) lb=%r ub=%r' % (y.tolist(), x.tolist(), lb.tolist(), ub.tolist())):
                break
            if len(x) == p.n:
                m.check(np.max(np.abs(x - y)) <= 1e-9 * (1 + np.max(np.abs(y))), 'trial-point-not-the-computed-one', lambda: 'evaluated %r computed %r' % (y.tolist(), x.tolist()))
    m.ev('returned_points')
    m.check(out_of(lb, ub, r.xv) <= 0, 'returned-point-outside', lambda: 'x=%r lb=%r ub=%r flag=%r' % (r.xv.tolist(), lb.tolist(), ub.tolist(), r.flag))
    if any(np.min(np.minimum(np.abs(np.array(x) - lb), np.abs(np.array(x) - ub))) < 1e-8 for x, v in r.f):
        m.ev('runs_touching_bounds')
        m.nontrivial(p.desc(), o, r.flag, r.nsimul)
        m.sample(dict(problem=p.desc(), options=o, x=r.xv, lb=lb, ub=ub, flag=r.flag, trials=len(trial)))
