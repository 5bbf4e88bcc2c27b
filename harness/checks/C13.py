"""Solves what it is made for: strongly convex quadratic programs with known solution."""
import numpy as np
import convex
import e2e
import runner

RULE = ('case = strongly convex QP (n 1-5, condition <= 10, kinds: unconstrained, box, linear equalities, linear inequalities, mixed) with the exact '
        'solution from active-set enumeration x kind of model x Hessian x final degree; non-trivial = run returned; distinct by (problem, options)')
ASSUMPTIONS = ['success = within 1e-2 of the exact solution and of feasibility; judged as a rate per configuration (problems with inequalities: pooled rate 0.7, because of the recorded finding)',
               'status 0 with an answer more than 0.15 away is judged case by case',
               'status-0 answers explained by a wrong-signed inequality multiplier at an active inequality are the recorded finding']
MIN = {'solved': 150, 'default_runs': 40, 'status0_compared': 150}
KINDS = ['unc', 'box', 'eq', 'ineq', 'mixed']
COMB = [(w, h) for w in ('Subbasis', 'Frobnorm', 'L2norm', 'Regression') for h in ('model', 'bfgs')]


def cases(tier, seed):
    out = []
    k = 10 if tier == 'quick' else 70
    for kind in KINDS:
        for w, h in COMB:
            for i in range(k):
                out.append(dict(kind=kind, s=seed * 1000003 + len(out), w=w, h=h, d=['diagonal', 'diagonal', 'quadratic'][i % 3]))
        for i in range(2 * k):
            out.append(dict(kind=kind, s=seed * 1000003 + 500000 + len(out), w=None, h=None, d=None))
    return out


def run_case(case, m):
    p = convex.gen(case['s'], case['kind'])
    o = dict(verbose=0, msimul=500, miter=500)
    if case['w']:
        o.update(whichmodel=case['w'], hess_approx=case['h'], final_degree=case['d'])
        cfg = '%s/%s' % (case['w'], case['h'])
    else:
        cfg = 'default'
        m.ev('default_runs')
    r = runner.run(p, o)
    if r.err:
        m.ev('crashed')
        return
    m.ev('runs')
    dx = float(np.linalg.norm(r.xv - p.xopt))
    fe = e2e.feas_viol(p, r.ce) if p.c is not None else 0.0
    ok = dx < 1e-2 and fe < 1e-2
    m.ev('solved', ok)
    hasineq = p.mi > 0
    lm = np.asarray(r.lm, float).ravel()
    if r.flag == 0:
        m.ev('status0_compared')
        if dx > 0.15:
            key = 'status0-wrong-solution'
            if hasineq and len(lm) == p.n + p.me + p.mi:
                li = lm[p.n + p.me:]
                ci = r.ce[p.me:]
                if np.any((np.abs(ci) < 1e-2) & (li > 1e-3)):
                    key = 'status0-wrong-sign-inequality-multiplier'
            m.bad(key, '%s cfg %s: |x-x*|=%g x=%r x*=%r c=%r lm=%r' % (p.name, cfg, dx, r.xv.tolist(), p.xopt.tolist(), r.ce.tolist(), lm.tolist()))
        else:
            m.check(fe <= 1.1e-3, 'status0-infeasible', lambda: '%g' % fe)
            if dx < 1e-3 and case['w'] in (None, 'Subbasis') and len(lm) == p.n + p.me + p.mi:
                # returned multipliers agree with the exact ones (g + lm_b + J' lm_c = 0)
                rows = [np.eye(p.n)[i] for i in range(p.n) if p.z[i] != 0]
                if p.me + p.mi:
                    J = e2e.grad(p.c, r.xv).T
                    rows += list(J[:p.me]) + [J[p.me + j] for j in range(p.mi) if p.yi[j] > 0]
                A = np.array(rows).reshape(-1, p.n)
                if len(rows) and np.linalg.matrix_rank(A, tol=0.2) == len(rows):
                    ex = np.concatenate([-p.z, -p.ye, -p.yi])
                    e = np.max(np.abs(ex - lm))
                    m.ev('multipliers_compared')
                    m.check(e <= 0.1 + 0.02 * np.max(np.abs(ex)), 'multipliers', lambda: 'returned %r exact %r' % (lm.tolist(), ex.tolist()))
    m.data.append([cfg, case['kind'], bool(ok), r.nsimul, hasineq])
    m.nontrivial(p.desc(), case)
    m.sample(dict(problem=p.desc(), cfg=cfg, dx=dx, flag=r.flag, nsimul=r.nsimul))


def finalize(data, counts, tier):
    by = {}
    ineq = {}
    evals = []
    for idx, (cfg, kind, ok, n, hasineq) in data:
        (ineq if hasineq else by).setdefault(cfg, []).append(ok)
        if not hasineq and cfg == 'default':
            evals.append(n)
    out = []
    for cfg, v in by.items():
        rate = sum(v) / len(v)
        counts['rate%%_%s' % cfg] = int(100 * rate)
        need = 0.94 if cfg == 'default' else 0.72
        if len(v) >= 15 and rate < need:
            out.append((None, 'success-rate', '%s: %d of %d solved, need %g' % (cfg, sum(v), len(v), need)))
    # inequalities: the recorded finding (wrong-signed multiplier) costs 5-25 %; pooled over configurations
    allv = [o for v in ineq.values() for o in v]
    if len(allv) >= 60:
        rate = sum(allv) / len(allv)
        counts['rate%_inequalities'] = int(100 * rate)
        if rate < 0.7:
            out.append((None, 'success-rate-inequalities', '%d of %d solved, need 0.7' % (sum(allv), len(allv))))
    for cfg, v in ineq.items():
        if len(v) >= 15 and sum(v) / len(v) < 0.4:
            out.append((None, 'success-rate-inequalities', '%s: %d of %d solved, need 0.4' % (cfg, sum(v), len(v))))
    if len(evals) >= 30:
        med = sorted(evals)[len(evals) // 2]
        counts['median_evaluations_default'] = med
        if med > 120:
            out.append((None, 'evaluations-default', 'median run of the default configuration needs %d evaluations' % med))
    return out
