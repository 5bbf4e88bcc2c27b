"""Printing is passive: the run does not depend on the verbosity."""
import random
import e2e
import probgen
import runner

RULE = ('case = smooth or hostile problem x random options, solved at verbosity 0 and two other levels out of 1..6; every evaluated point, the '
        'result, status, multipliers and counters are compared bitwise; non-trivial = more evaluations than the initial set; distinct by (problem, options, levels)')
ASSUMPTIONS = ['the print destination is stdout']
MIN = {'pairs_compared': 120}


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 170, 1700, 11)]


def run_case(case, m):
    s = case['s']
    rr = random.Random('C11-%s' % s)
    p = probgen.hostile(s) if rr.random() < 0.4 else probgen.general(s)
    o = probgen.rand_options(s)
    o['msimul'] = rr.choice([30, 90, 150])
    if rr.random() < .2:
        o['miter'] = rr.choice([2, 6, 15])
    if rr.random() < .2:
        o['bfgs_restart'] = rr.choice([5, 10])
    fault = None
    if rr.random() < .15:
        fault = ('f', rr.randrange(40), rr.choice(['nan', 'exc', 'inf']))
    o['verbose'] = 0
    base = runner.run(p, o, fault=fault)
    if base.err:
        m.ev('crashed')
        return
    s0 = runner.sig(base)
    lv = rr.sample([1, 2, 3, 4, 5, 6], 2)
    for v in lv:
        r = runner.run(p, dict(o, verbose=v), fault=fault)
        m.ev('pairs_compared')
        m.ev('level%d' % v)
        if r.err:
            e2e.crash(m, r, 'raised-when-printing')
            continue
        m.check(runner.sig(r) == s0, 'verbosity-changes-run', lambda: 'level 0: flag %r nsimul %r f %r; level %d: flag %r nsimul %r f %r first difference %r' % (
            base.flag, base.nsimul, base.info.f, v, r.flag, r.nsimul, r.info.f,
            next((i for i, (a, b) in enumerate(zip(base.f, r.f)) if a != b), None)))
        m.check(v > 0 and len(r.out) > len(base.out), 'silent', lambda: 'level %d prints no more than level 0' % v)
    if len(base.f) > p.n + 1:
        m.nontrivial(p.desc(), o, lv)
        m.sample(dict(problem=p.desc(), levels=lv, flag=base.flag, nsimul=base.nsimul))
