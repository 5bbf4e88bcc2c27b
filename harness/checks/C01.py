"""Returned point is an evaluated point and f / constraint values are those returned there."""
import random
import numpy as np
import e2e
import probgen
import runner

RULE = ('case = random smooth problem (n 1-6, 0-2 equalities, 0-3 inequalities, 7 bound patterns, x0 in/outside the box) x '
        'random options (all models/degrees/hessians, evaluation budgets 3..400 and iteration budgets 1..400); '
        'non-trivial = the solver evaluated the functions and returned; distinct by (problem desc, options, flag, nsimul)')
ASSUMPTIONS = ['user functions deterministic, values at the initial set below 1e25', 'crashes are judged by C02, not here']
MIN = {'runs_returned': 50, 'zero_start': 15, 'enormous_met': 25}


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 420, 3500, 1)]


def same(c, ce):
    """equal, where for constraint values beyond 1e25 a large value of the same sign stands in"""
    big = np.abs(c) >= 1e25
    return np.array_equal(c[~big], ce[~big]) and np.all(np.sign(c[big]) == np.sign(ce[big])) and np.all(np.abs(ce[big]) >= 10)


def truthful(m, p, r, pre=''):
    m.ev('evaluations_of_user_functions', len(r.f))
    if not m.check(len(r.xv) == p.n, pre + 'x-size', 'x has %d entries, n=%d' % (len(r.xv), p.n)):
        return
    idx = e2e.find_eval(r, r.xv)
    if not m.check(len(idx) > 0, pre + 'x-not-evaluated', lambda: 'x=%r flag=%r' % (r.xv.tolist(), r.flag)):
        return
    fv = {float(r.f[i][1]) for i in idx}
    # (an objective value beyond 1e25 is cut there)
    m.check(float(np.asarray(r.info.f).ravel()[0]) in {min(v, 1e25) for v in fv}, pre + 'f-mismatch', lambda: 'info.f=%r evaluated=%r flag=%r' % (r.info.f, fv, r.flag))
    if p.me + p.mi:
        cs = [r.c[i][1] for i in idx if i < len(r.c)]
        m.check(any(len(c) == len(r.ce) and same(c, r.ce) for c in cs), pre + 'c-mismatch',
                lambda: 'info.ce=%r evaluated=%r flag=%r' % (r.ce.tolist(), [c.tolist() for c in cs], r.flag))
    else:
        m.check(len(r.ce) == 0, pre + 'c-mismatch', 'info.ce not empty without constraints')


def run_case(case, m):
    s = case['s']
    rr = random.Random('C01-%s' % s)
    p = probgen.general(s)
    o = probgen.rand_options(s)
    if rr.random() < 0.55:
        o['msimul'] = rr.choice([3, 8, 15, 25, 40, 60, 100])
    if rr.random() < 0.25:
        o['miter'] = rr.choice([1, 2, 5, 10, 20])
    if rr.random() < 0.12:
        # objective exactly zero at the first point (relative limits on values must not bind there)
        v0 = runner.run(p, dict(o, msimul=1, miter=1))
        if v0.f and v0.f[0][1] is not None:
            f0, z = p.f, v0.f[0][1]
            p.f = lambda x: f0(x) - z
            m.ev('zero_start')
    hit = [0]
    if rr.random() < 0.3:
        # beyond a plane the functions return enormous values (as simulations that have failed like to do)
        v0 = runner.run(p, dict(o, msimul=1, miter=1))
        if len(v0.f) >= 1 and not v0.err:
            first = np.array([x for x, _ in v0.f])
            d = np.array([rr.gauss(0, 1) for _ in range(p.n)])
            if rr.random() < .7:
                # ... which lies on the way to the solution
                v1 = runner.run(p, dict(o, msimul=60))
                if not v1.err and len(v1.xv) == p.n and np.linalg.norm(v1.xv - first[0]) > 1e-3:
                    d = v1.xv - first[0]
            top = np.max(first @ d) + rr.choice([0.01, 0.1, 0.5]) * np.linalg.norm(d)
            comp = rr.choice(['f'] + ['c'] * 3) if p.c is not None else 'f'
            big = 10.0 ** rr.choice([25, 26, 30, 100, 300]) * rr.choice([1, 1.5])
            f1, c1 = p.f, p.c
            if comp == 'f':
                def f(x):
                    if np.dot(x, d) > top:
                        hit[0] += 1
                        return big
                    return f1(x)
                p.f = f
            else:
                which = [rr.random() < .6 for _ in range(p.me + p.mi)]
                sg = [rr.choice([-1, 1]) for _ in which]

                def c(x):
                    v = np.array(c1(x), float).ravel()
                    if np.dot(x, d) > top:
                        hit[0] += 1
                        for i, w in enumerate(which):
                            if w:
                                v[i] = sg[i] * big
                    return v
                p.c = c
            m.ev('enormous_' + comp)
    r = runner.run(p, o)
    if r.err:
        m.ev('crashed')
        return
    if r.flag in (1, 2):
        return
    m.ev('runs_returned')
    m.ev('enormous_met', int(hit[0] > 0))
    m.ev('flag%d' % r.flag)
    truthful(m, p, r)
    m.nontrivial(p.desc(), o, r.flag, r.nsimul)
    m.sample(dict(problem=p.desc(), options=o, flag=r.flag, x=r.xv, f=r.info.f, nsimul=r.nsimul))
