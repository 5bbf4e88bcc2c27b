"""Progress: accepted steps decrease the merit function, iterates of problems without constraint functions never get worse."""
import random
import re
import numpy as np
import e2e
import hooks
import probgen
import runner

RULE = ('case = smooth or hostile problem x random options, verbosity 5 trace recorded together with every evaluation; non-trivial = at least one '
        'accepted and one rejected step in the trace; distinct by (problem, options, nsimul)')
ASSUMPTIONS = ['values printed with 8 significant digits (the penalty parameter with 2): comparisons allow for that',
               'with inequality constraints the merit value of the trial point is only bounded from below (internal slack variables)']
MIN = {'runs': 60, 'accepted_steps': 150, 'rejected_steps': 100, 'iterate_moves_unconstrained': 40, 'merit_recomputed': 150}

NUM = r'([-+]?\d\.\d+e[-+]\d+|[-+]?inf|nan)'
R_MERIT = re.compile(r'Merit function:\s*%s\s*->\s*%s' % (NUM, NUM))
R_ACC = re.compile(r'Step accepted \(rho =\s*%s; ared =\s*%s, pred =\s*%s\)' % (NUM, NUM, NUM))
R_REJ = re.compile(r'Step rejected \(rho =\s*%s; ared =\s*%s, pred =\s*%s\)' % (NUM, NUM, NUM))
R_PEN = re.compile(r'Penalty parameter =\s*%s' % NUM)


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 260, 2600, 6)]


def run_case(case, m):
    s = case['s']
    rr = random.Random('C06-%s' % s)
    p = probgen.hostile(s) if rr.random() < 0.25 else probgen.general(s)
    o = probgen.rand_options(s)
    o['verbose'] = 5
    o['msimul'] = rr.choice([60, 120, 200])
    # know how many evaluations had been made when each line was printed
    marks = []

    class P:
        pass
    q = P()
    q.__dict__.update(p.__dict__)
    cnt = [0]

    def f(x):
        v = p.f(x)
        cnt[0] += 1
        print('\n@@EVAL %d' % cnt[0])
        return v
    q.f = f
    q.n = p.n
    steps = {}

    def before(a, k):
        # slack variables of the iterate
        sl = glob.get_slacks() if glob.get_nbr_slacks() else None
        return None if sl is None else np.ravel(np.array(sl, dtype=float))

    def after(a, k, res, tok):
        x = a[1] if len(a) > 1 else k.get('x')
        new = np.ravel(np.array(res[8], dtype=float)) if tok is not None else None
        steps[cnt[0]] = (np.ravel(np.array(x, dtype=float)), tok, new)
    import sqpdfo.sqpdfo_global_variables as glob
    h = hooks.Hook()
    h.wrap('sqpdfo_solve_TR_bc', 'sqpdfo_solve_TR_bc_', before=before, after=after)
    try:
        r = runner.run(q, o)
    finally:
        h.remove()
    if r.err:
        m.ev('crashed')
        return
    if r.flag in (1, 2):
        return
    m.ev('runs')
    fv = [v for x, v in r.f]
    cv = [c for x, c in r.c]
    unc = p.me + p.mi == 0
    nev = 0
    sigma = None
    X = np.array([np.ravel(x) for x, v in r.f])

    def exact(k, a, b):
        # both merit values from the points and slack variables the step went from and to
        if k not in steps or (not unc and (k >= len(cv) or sigma is None)) or not np.isfinite(fv[k]) or abs(fv[k]) >= 1e24:
            return
        x, sl, new = steps[k]
        if X.shape[1] != len(x):
            return

        def viol(i, y):
            c = np.ravel(np.array(cv[i], dtype=float)).copy()
            if y is not None:
                c[len(c) - len(y):] -= y ** 2
            return float(np.linalg.norm(c))
        big = [i for i in range(k + 1) if not unc and i < len(cv) and not np.all(np.abs(cv[i]) < 1e24)]
        here = [i for i in range(k) if np.max(np.abs(X[i] - x)) <= 1e-10 * (1 + np.max(np.abs(x)))]
        if big or not here:
            return
        if unc:
            m.ev('exact_reference')
            m.check(any(abs(a - fv[i]) <= 2e-8 * abs(fv[i]) + 1e-300 for i in here), 'reference-not-of-the-iterate',
                    lambda: 'reference value %r, values at the iterate %r (evaluation %d)' % (a, [fv[i] for i in here], k))
            return
        m.ev('exact_reference')
        if sl is not None:
            m.ev('exact_reference_with_slacks')
        ok = False
        for i in here:
            w0, w1 = viol(i, sl), viol(k, new)
            tol = 2e-8 * (abs(a) + abs(fv[i])) + 1e-12
            if abs(a - fv[i] - sigma * w0) > .0051 * sigma * w0 + tol:
                continue
            if abs(b - fv[k] - sigma * w1) > .0051 * sigma * w1 + 2e-8 * (abs(b) + abs(fv[k])) + 1e-12:
                continue
            # the same penalty parameter in both
            e = (tol * w1 + (2e-8 * (abs(b) + abs(fv[k])) + 1e-12) * w0) * 1.01
            if abs((a - fv[i]) * w1 - (b - fv[k]) * w0) <= e + 1e-9 * (abs(a - fv[i]) * w1 + abs(b - fv[k]) * w0):
                ok = True
        m.check(ok, 'reference-not-of-the-iterate', lambda: 'merit %r -> %r, penalty %g; at the iterate f %r violation %r, at the trial point f %r violation %r (evaluation %d)' % (
            a, b, sigma, [fv[i] for i in here], [viol(i, sl) for i in here], fv[k], viol(k, new), k))
    last = None           # (merit0, merit, nev)
    prev_a = None
    pend = None
    acc = rej = 0
    for line in r.out.splitlines():
        if line.startswith('@@EVAL'):
            nev = int(line.split()[1])
            continue
        t = R_PEN.search(line)
        if t:
            sigma = float(t.group(1))
            continue
        t = R_MERIT.search(line)
        if t:
            a, b = float(t.group(1)), float(t.group(2))
            last = (a, b, nev)
            k = nev - 1
            # merit of the trial point: the newest evaluation
            m.ev('merit_recomputed')
            exact(k, a, b)
            if unc:
                m.check(abs(b - fv[k]) <= 2e-8 * max(1e-300, abs(fv[k])) + 1e-300, 'trial-merit', lambda: 'printed %r, f(trial)=%r' % (b, fv[k]))
                if prev_a is not None:
                    m.ev('iterate_moves_unconstrained')
                    m.check(a <= prev_a + 3e-8 * abs(prev_a), 'iterate-got-worse', lambda: 'f of the iterate went from %r to %r at evaluation %d' % (prev_a, a, nev))
                m.check(any(abs(a - z) <= 2e-8 * abs(z) + 1e-300 for z in fv[:k]), 'reference-merit', lambda: 'reference value %r was never evaluated' % a)
                if pend is not None:
                    m.ev('accepted_then_next_reference')
                    m.check(a <= pend + 3e-8 * abs(pend), 'accepted-point-lost', lambda: 'accepted %r but next reference value %r (evaluation %d)' % (pend, a, nev))
                pend = None
                prev_a = a
            elif sigma is not None and k < len(cv):
                ce = np.linalg.norm(cv[k][:p.me]) if p.mi else np.linalg.norm(cv[k])
                if p.mi:
                    ce = np.sqrt(ce ** 2 + np.sum(np.minimum(cv[k][p.me:], 0) ** 2))
                lo = fv[k] + 0.99 * sigma * ce
                hi = fv[k] + 1.01 * sigma * ce
                tol = 1e-6 * (abs(fv[k]) + sigma * ce) + 1e-12
                m.check(b >= lo - tol, 'trial-merit', lambda: 'printed %r < f+sigma|c| = %r' % (b, lo))
                if not p.mi:
                    m.check(b <= hi + tol, 'trial-merit', lambda: 'printed %r > f+sigma|c| = %r' % (b, hi))
                    # reference merit = merit of some evaluated point, same sigma
                    z = np.array([fv[i] + sigma * np.linalg.norm(cv[i]) for i in range(k)])
                    w = np.array([sigma * np.linalg.norm(cv[i]) for i in range(k)])
                    m.check(bool(np.any(np.abs(a - z) <= 1e-6 * (np.abs(z) + w) + 0.006 * w + 1e-12)), 'reference-merit',
                            lambda: 'reference merit %r belongs to no evaluated point (sigma %g)' % (a, sigma))
            continue
        t = R_ACC.search(line)
        if t and last:
            acc += 1
            a, b, k = last
            pend = b
            rho, ared, pred = [float(z) for z in t.groups()]
            m.check(b < a or (b == a and ared > 0), 'accepted-without-decrease', lambda: 'merit %r -> %r' % (a, b))
            m.check(ared > 0 and pred > 0, 'accepted-without-decrease', lambda: line)
            m.check(rho >= 0.99e-4, 'accepted-below-threshold', lambda: line)
            m.check(abs(rho - ared / pred) <= 0.02 * abs(rho) + 1e-300, 'ratio', lambda: line)
            m.check(abs(ared - (a - b)) <= 0.01 * abs(ared) + 3e-8 * max(abs(a), abs(b)), 'actual-reduction', lambda: '%r -> %r %s' % (a, b, line))
        t = R_REJ.search(line)
        if t and last:
            rej += 1
            pend = None
            a, b, k = last
            rho, ared, pred = [float(z) for z in t.groups()]
            if pred > 0 and ared / pred >= 1.02e-4 and rho < 0.98e-4:
                m.bad('rejected-despite-decrease', line)
    m.ev('accepted_steps', acc)
    m.ev('rejected_steps', rej)
    if unc:
        m.check(r.info.f <= fv[0], 'result-worse-than-start', lambda: 'f(x)=%r f(first)=%r flag %r' % (r.info.f, fv[0], r.flag))
    if acc and rej:
        m.nontrivial(p.desc(), o, r.nsimul)
        m.sample(dict(problem=p.desc(), options=o, accepted=acc, rejected=rej, flag=r.flag))
