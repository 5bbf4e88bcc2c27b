"""Every well-formed call returns a documented status (no exception, no endless run)."""
import random
import numpy as np
import e2e
import probgen
import runner

RULE = ('case = smooth or hostile (nonsmooth/constant/linear/noisy/infeasible/redundant constraints/narrow or one-sided boxes/far '
        'starts) problem x random options incl. every verbosity 0..6, default options, small budgets; non-trivial = user functions '
        'were evaluated; distinct by (problem desc, options, flag, nsimul)')
ASSUMPTIONS = ['function values finite and |value| < 1e25', 'no return within 120 CPU seconds (typical run: 0.5 s) counts as no return']
MIN = {'runs_returned': 50, 'hostile': 20, 'default_options': 3}
HANG_IS_VIOLATION = True
CASE_CPU = 120


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 480, 4000, 2)]


def run_case(case, m):
    s = case['s']
    rr = random.Random('C02-%s' % s)
    host = rr.random() < 0.6
    p = probgen.hostile(s) if host else probgen.general(s)
    o = probgen.rand_options(s)
    o['verbose'] = rr.choice([0, 0, 0, 1, 2, 3, 4, 5, 6])
    o['msimul'] = rr.choice([10, 50, 150, 150, 250])
    if rr.random() < 0.3:
        o['miter'] = rr.choice([1, 2, 5, 20])
    if rr.random() < 0.2:
        o['bfgs_restart'] = rr.choice([0, 5, 10])
    if rr.random() < 0.4:
        for k in list(o):
            if k not in ('msimul', 'miter', 'verbose') and rr.random() < .5:
                del o[k]
    raw = {}
    if rr.random() < 0.06:
        o = None
        m.ev('default_options')
    if rr.random() < 0.06:
        # integer-valued functions
        f0, c0 = p.f, p.c
        p.f = lambda x: int(np.clip(np.round(4 * f0(x)), -1e15, 1e15))
        if c0 is not None:
            p.c = lambda x: [int(t) for t in np.clip(np.round(4 * np.asarray(c0(x))), -1e15, 1e15)]
        m.ev('integer_values')
    fixed = rr.random() < 0.05 and p.n > 1
    if fixed:
        # some (not all) variables fixed by equal bounds
        k = rr.randrange(1, p.n)
        for i in rr.sample(range(p.n), k):
            v = p.x0[i]
            p.lb[i] = p.ub[i] = v
        m.ev('fixed_variables')
    r = runner.run(p, o, raw=raw)
    if host:
        m.ev('hostile')
    if r.err:
        if fixed:
            m.bad('crash-with-fixed-variables', r.err[-700:])
        else:
            e2e.crash(m, r)
        return
    m.ev('runs_returned')
    m.ev('flag%s' % r.flag)
    m.check(r.flag in e2e.FLAGS, 'undocumented-flag', lambda: repr(r.flag))
    m.check(r.flag not in (1, 2), 'wellformed-rejected', lambda: 'flag %r %s' % (r.flag, r.out[-300:]))
    if r.flag in (1, 2):
        return
    m.check(len(r.f) > 0, 'no-evaluation', '')
    m.check(len(r.xv) == p.n and np.all(np.isfinite(r.xv)), 'bad-x', lambda: repr(r.xv))
    lm = np.asarray(r.lm, float).ravel()
    m.check(len(lm) == p.n + p.me + p.mi and np.all(np.isfinite(lm)), 'bad-lm', lambda: '%r n=%d me=%d mi=%d flag=%r' % (lm, p.n, p.me, p.mi, r.flag))
    m.check(np.isfinite(float(np.asarray(r.info.f).ravel()[0])), 'bad-f', lambda: repr(r.info.f))
    m.nontrivial(p.desc(), o, r.flag, r.nsimul)
    m.sample(dict(problem=p.desc(), options=o, flag=r.flag, nsimul=r.nsimul))
