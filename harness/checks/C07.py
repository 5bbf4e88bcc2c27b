"""Failing evaluations: the run stops at once with status 3, no exception, consistent result."""
import random
import numpy as np
import e2e
import probgen
import runner
from checks.C01 import truthful

RULE = ('case = problem x options x fault (objective or constraint; exception / ZeroDivisionError / NaN / None or another non-number / +-Inf objective / NaN constraint '
        'component / another number of constraint values) at the k-th evaluation, k spread over the whole run incl. initial set, steps and repairs; non-trivial = the fault was '
        'actually delivered; distinct by (problem, options, fault)')
ASSUMPTIONS = ['infinite (not NaN) constraint values are clipped by design and not faults']
MIN = {'faults_delivered': 80, 'fault_in_initial_set': 15, 'fault_later': 40}


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 260, 2500, 7)]


def run_case(case, m):
    s = case['s']
    rr = random.Random('C07-%s' % s)
    p = probgen.hostile(s) if rr.random() < 0.2 else probgen.general(s)
    o = probgen.rand_options(s)
    o['msimul'] = 120
    o['verbose'] = rr.choice([0, 0, 0, 1, 2, 3])
    base = runner.run(p, o)
    if base.err or base.flag in (1, 2):
        m.ev('crashed')
        return
    N = len(base.f)
    for t in range(2):
        k = rr.choice([rr.randrange(0, min(N, p.n + 1)), rr.randrange(0, N), rr.randrange(0, N), N - 1])
        where = 'c' if (p.c is not None and rr.random() < 0.5) else 'f'
        kind = rr.choice(['exc', 'nan', 'zerodiv', 'inf', '-inf', 'none', 'vec'] if where == 'f' else ['exc', 'nan', 'zerodiv', 'nan', 'none', 'str', 'more', 'fewer'])
        if kind in ('more', 'fewer') and k == 0:
            kind = 'none'
        fault = (where, k, kind) + ((rr.randrange(8),) if where == 'c' else ())
        r = runner.run(p, o, fault=fault)
        if r.fault_hit is None:
            m.bad('not-deterministic', 'fault %r never reached (N=%d)' % (fault, N))
            return
        m.ev('faults_delivered')
        m.ev('fault_in_initial_set' if k <= p.n else 'fault_later')
        m.ev('fault_%s_%s' % (where, kind))
        if r.err:
            e2e.crash(m, r, 'raised')
            continue
        m.check(r.flag == 3, 'status', lambda: 'flag %r after %r' % (r.flag, fault))
        m.check(len(r.f) == k + 1, 'evaluations-after-failure', lambda: '%d calls of f, fault at %d' % (len(r.f), k))
        m.check(len(r.c) <= len(r.f), 'evaluations-after-failure', '')
        m.check(r.nsimul == k + 1, 'nsimul', lambda: 'reported %r, calls %d' % (r.nsimul, k + 1))
        m.check(r.f[:k] == base.f[:k], 'path-changed', 'evaluations before the fault differ')
        if k > p.n:
            # iterate known: the result must be a successfully evaluated point
            class T:
                pass
            ok = [i for i in range(k)]
            t2 = T()
            t2.__dict__.update(r.__dict__)
            t2.f = r.f[:k]
            t2.c = r.c[:k]
            truthful(m, p, t2, 'result-')
        m.nontrivial(p.desc(), o, fault)
        m.sample(dict(problem=p.desc(), fault=fault, flag=r.flag, x=r.xv, f=r.info.f))
