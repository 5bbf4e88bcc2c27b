"""Results depend only on the arguments: repeat, repeat after other calls, other process."""
import hashlib
import random
import numpy as np
import e2e
import probgen
import runner

RULE = ('case = problem A solved, then a random history of 1-4 other calls (other dimensions, with/without inequality slacks, failing '
        'evaluations, rejected arguments, raising user functions, tiny budgets), then A again; each A is also solved in a second worker process '
        'with another history and the digests compared; non-trivial = evaluated runs; distinct by (A, history kinds)')
ASSUMPTIONS = ['user functions are pure', 'calls are sequential, not nested or concurrent']
MIN = {'repeats_compared': 60, 'cross_process_pairs': 30, 'history_calls': 100}


def cases(tier, seed):
    n = 90 if tier == 'quick' else 900
    ss = e2e.seeds(tier, seed, n, n, 8)
    # the same A appears twice, far apart: different worker, different history
    return [dict(s=s, h=0) for s in ss] + [dict(s=s, h=1) for s in ss[3:] + ss[:3]]


def digest(r):
    return hashlib.sha1(repr(runner.sig(r)).encode()).hexdigest()


def history(rr, m):
    kinds = []
    for _ in range(rr.randrange(1, 5)):
        q = rr.randrange(10 ** 9)
        kind = rr.choice(['plain', 'ineq', 'fault', 'badopt', 'badbounds', 'hostile', 'tiny', 'exc0', 'nof', 'twosided', 'huge'])
        p = probgen.general(q, nmax=4)
        o = probgen.rand_options(q, msimul=40)
        o['verbose'] = rr.choice([0, 0, 1, 3, 5])
        kw = {}
        if kind == 'ineq':
            p.mi = p.me = 0
            A = np.array([[rr.gauss(0, 1) for _ in range(p.n)] for _ in range(2)])
            p.c = lambda x, A=A: A @ np.array(x, float) + 2.0
            p.mi = 2
        elif kind == 'fault':
            kw['fault'] = ('f', rr.randrange(12), 'nan')
        elif kind == 'exc0':
            kw['fault'] = ('f', 0, 'exc')
        elif kind == 'badopt':
            o['hess_approx'] = 'nonsense'
        elif kind == 'badbounds':
            p.lb = np.full(p.n, 1.0)
            p.ub = np.full(p.n, -1.0)
        elif kind == 'hostile':
            p = probgen.hostile(q)
        elif kind == 'tiny':
            o['msimul'] = 1
        elif kind == 'nof':
            kw['raw'] = dict(func_f=None)
        elif kind == 'twosided':
            A = np.array([[rr.gauss(0, 1) for _ in range(p.n)] for _ in range(2)])
            p.me, p.mi = 0, 2
            p.c = lambda x, A=A: A @ np.array(x, float) + 2.0
            p.li, p.ui = np.array([-1e9, -1e9]), np.array([1e9, 1e9])
        elif kind == 'huge':
            p.x0 = p.x0 * 1e3
        r = runner.run(p, o, **kw)
        kinds.append(kind)
        m.ev('history_calls')
        m.ev('history_' + kind)
    return kinds


def run_case(case, m):
    s = case['s']
    rr = random.Random('C08-%s' % s)
    p = probgen.hostile(s) if rr.random() < 0.2 else probgen.general(s)
    o = probgen.rand_options(s, msimul=80)
    hr = random.Random('C08h-%s-%s' % (s, case['h']))
    r1 = runner.run(p, o)
    if r1.err:
        m.ev('crashed')
        return
    kinds = history(hr, m)
    if hr.random() < .5:
        np.random.seed(hr.randrange(1000))
        np.random.rand(hr.randrange(5))
    r2 = runner.run(p, o)
    m.ev('repeats_compared')
    d1, d2 = digest(r1), digest(r2)
    if not m.check(d1 == d2, 'history-dependence', lambda: 'flags %r/%r nsimul %r/%r first difference %r history %r' % (
            r1.flag, getattr(r2, 'flag', None), r1.nsimul, getattr(r2, 'nsimul', None),
            next((i for i, (a, b) in enumerate(zip(r1.f, r2.f)) if a != b), None), kinds)):
        pass
    m.data.append([s, d1, r1.nsimul, r1.flag])
    m.nontrivial(p.desc(), o, kinds)
    m.sample(dict(problem=p.desc(), options=o, history=kinds, flag=r1.flag, nsimul=r1.nsimul, digest=d1))


def finalize(data, counts, tier):
    by = {}
    out = []
    for idx, (s, d, n, fl) in data:
        if s in by:
            counts['cross_process_pairs'] = counts.get('cross_process_pairs', 0) + 1
            if by[s][0] != d:
                out.append((idx, 'process-dependence', 'seed %s: digest differs between two processes (nsimul %s / %s)' % (s, by[s][1], n)))
        else:
            by[s] = (d, n)
    return out
