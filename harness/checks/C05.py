"""Status 0 is a certificate: feasible within the documented tolerance and first-order stationary with the
returned multipliers, judged with the true derivatives of the user functions."""
import random
import numpy as np
import e2e
import probgen
import runner

RULE = ('case = random smooth problem (bounds, equalities, inequalities; 30 % with constraints that miss feasibility by 125..10000 tolerances) x options with tolerances 1e-3..1e-6, default kind of model for the '
        'stationarity part, every kind for the feasibility part; non-trivial = run returned status 0; distinct by (problem, options, nsimul)')
ASSUMPTIONS = ['convergence after a repair is accepted by design up to 100 times the tolerances',
               'gradient accuracy allowance: 2e-3 * n * (curvature of the Lagrangian near the returned point), the size implied by the '
               'documented accuracy test (poisedness*radius/100 <= 1e-5)',
               'signs of inequality multipliers are not part of the claim']
MIN = {'status0': 80, 'inconsistent_constraints': 60, 'status0_subbasis': 50, 'status0_constrained': 25, 'status0_bound_active': 5}


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 640, 5000, 5)]


def curv(fun, x, d=1e-3):
    """max |second difference| over coordinate pairs, per output component"""
    n = len(x)
    E = np.eye(n) * d
    f = lambda z: np.atleast_1d(fun(z)).astype(float)
    worst = 0
    for i in range(n):
        for j in range(n):
            v = (f(x + E[i] + E[j]) - f(x + E[i] - E[j]) - f(x - E[i] + E[j]) + f(x - E[i] - E[j])) / (4 * d * d)
            worst = np.maximum(worst, np.abs(v))
    return worst * n


def inconsistent(p, rr):
    """constraints that cannot all hold: the violation stays above 2*dlt*100 (status 0 is impossible) or
    slightly above the tolerance"""
    q = probgen.Problem(x0=p.x0, lb=p.lb, ub=p.ub, f=p.f, name='inconsistent/' + p.name)
    tol = rr.choice([1e-3, 1e-4, 1e-5])
    n = p.n
    a = np.array([rr.gauss(0, 1) for _ in range(n)])
    a = a / max(np.linalg.norm(a), 1e-3)
    gap = tol * rr.choice([250, 400, 1000, 3000, 20000])
    # lb<=xf<=ub holds for the generator's xf
    off = float(a @ p.xf)
    q.me, q.mi = rr.choice([(2, 0), (0, 2)]) if n > 1 else (0, 2)
    if q.me:
        q.c = lambda x: np.array([a @ np.array(x, float) - off, a @ np.array(x, float) - off - gap])
    else:
        q.c = lambda x: np.array([a @ np.array(x, float) - off, off - gap - a @ np.array(x, float)])
    return q, tol


def run_case(case, m):
    s = case['s']
    rr = random.Random('C05-%s' % s)
    p = probgen.general(s, nmax=rr.choice([2, 6, 6]))
    narrow = rr.random() < 0.3
    if narrow:
        p, dlt = inconsistent(p, rr)
        m.ev('inconsistent_constraints')
    o = probgen.rand_options(s)
    o['tol_grad'] = rr.choice([3e-2, 1e-2, 1e-3, 1e-4, 1e-5, 1e-5, 1e-6])
    o['tol_feas'] = rr.choice([1e-3, 1e-4, 1e-5, 1e-5, 1e-6])
    if rr.random() < .6:
        o['whichmodel'] = 'Subbasis'
    if rr.random() < .1:
        del o['tol_grad'], o['tol_feas']
    if not narrow and p.n <= 2 and rr.random() < .5:
        # coarse tolerance: only the accuracy test of the models keeps the certificate honest
        o['tol_grad'] = rr.choice([3e-2, 1e-2, 3e-3])
        o['whichmodel'] = 'Subbasis'
        o['final_degree'] = rr.choice(['linear', 'linear', 'diagonal'])
    if narrow:
        # the smallest reachable violation is a chosen multiple of the tolerance
        o['tol_feas'] = dlt
    o['verbose'] = rr.choice([0, 0, 2])
    r = runner.run(p, o)
    if r.err:
        m.ev('crashed')
        return
    m.ev('flag%d' % r.flag)
    if r.flag != 0:
        return
    tg, tf = o.get('tol_grad', 1e-5), o.get('tol_feas', 1e-5)
    m.ev('status0')
    x = r.xv
    m.check(e2e.viol_bounds(p, x) <= 1e-8, 'bounds', lambda: repr(x))
    if p.c is not None:
        m.ev('status0_constrained')
        v = e2e.feas_viol(p, p.c(list(x)))
        m.check(v <= 100 * tf * 1.000001 * np.sqrt(1), 'infeasible', lambda: 'violation %g, tol_feas %g' % (v, tf))
    lm = np.asarray(r.lm, float).ravel()
    if not m.check(len(lm) == p.n + p.me + p.mi and np.all(np.isfinite(lm)), 'multiplier-size', lambda: repr(lm)):
        return
    if o['whichmodel'] == 'Subbasis':
        m.ev('status0_subbasis')
        g = e2e.grad(p.f, x)[:, 0]
        tol = 100 * tg + 2e-3 * p.n * float(curv(p.f, x)[0])
        lag = g.copy()
        if p.c is not None:
            J = e2e.grad(p.c, x)                # n x m
            lc = lm[p.n:]
            lag = lag + J @ lc
            tol += 2e-3 * p.n * float(np.abs(lc) @ curv(p.c, x))
        tol += 1e-6 * max(1.0, np.max(np.abs(g)))
        act = (np.abs(x - p.lb) < 1e-5) | (np.abs(x - p.ub) < 1e-5)
        if act.any():
            m.ev('status0_bound_active')
        res = np.where(act, lag + lm[:p.n], lag)
        q = float(np.max(np.abs(res)))
        m.check(q <= tol, 'not-stationary', lambda: 'residual %g allowed %g x=%r lm=%r g=%r' % (q, tol, x.tolist(), lm.tolist(), g.tolist()))
        # bound multipliers: sign (pushes into the box), zero for inactive bounds
        for i in range(p.n):
            al, au = abs(x[i] - p.lb[i]) < 1e-9, abs(x[i] - p.ub[i]) < 1e-9
            if al and not au:
                m.check(lm[i] <= 1e-9, 'bound-multiplier-sign', lambda: 'lower bound %d lm %g' % (i, lm[i]))
            if au and not al:
                m.check(lm[i] >= -1e-9, 'bound-multiplier-sign', lambda: 'upper bound %d lm %g' % (i, lm[i]))
            if abs(x[i] - p.lb[i]) > 1.1e-5 and abs(x[i] - p.ub[i]) > 1.1e-5:
                m.check(abs(lm[i]) <= 1e-9, 'bound-multiplier-inactive', lambda: 'component %d lm %g x=%r' % (i, lm[i], x.tolist()))
        m.data.append(q / tol)
    m.nontrivial(p.desc(), o, r.nsimul)
    m.sample(dict(problem=p.desc(), options=o, x=x, lm=lm, nsimul=r.nsimul))
