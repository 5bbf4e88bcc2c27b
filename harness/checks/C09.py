"""The caller's arguments are not modified; the user functions get private copies."""
import copy
import random
import numpy as np
import e2e
import probgen
import runner

RULE = ('case = problem x options (option object with lower/upper case strings, extra attributes) x argument forms; the arguments are '
        'snapshotted before and compared after the call; the same run is made with user functions that overwrite the lists they receive (now or later) or return the same array each time, which must '
        'give the same run as well-behaved ones; non-trivial = evaluated run; distinct by (problem, options)')
ASSUMPTIONS = []
MIN = {'runs': 60, 'hostile_callbacks': 30, 'reused_buffers': 8, 'x0_moved_inside': 5}


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 220, 2200, 9)]


def run_case(case, m):
    s = case['s']
    rr = random.Random('C09-%s' % s)
    p = probgen.hostile(s) if rr.random() < 0.2 else probgen.general(s)
    o = probgen.rand_options(s, msimul=rr.choice([5, 40, 80]))
    o['hess_approx'] = rr.choice([o['hess_approx'], o['hess_approx'].upper(), ' ' + o['hess_approx']])
    o['verbose'] = rr.choice([0, 1, 4])
    if rr.random() < .3:
        o['tol_grad'] = 0
    if rr.random() < .3:
        del o['tol_feas']
    opt = runner.mkopt(o)
    opt.extra = [1, 2, {'a': 3}]
    x0, lb, ub = runner.col(p.x0), runner.col(p.lb), runner.col(p.ub)
    if rr.random() < .3:
        lb = None if not np.any(p.lb > -1e19) else lb
        ub = None if not np.any(p.ub < 1e19) else ub
    snap = copy.deepcopy((vars(opt), x0, lb, ub))
    li = ui = None
    raw = dict(options_=opt, x0=x0, lb=lb, ub=ub)
    if p.mi:
        li = np.full(p.me + p.mi, -1e9)
        ui = np.full(p.me + p.mi, 1e9)
        if p.me:
            li[:p.me] = 0
            ui[:p.me] = 0
        raw.update(li=li, ui=ui)
    sl = copy.deepcopy((li, ui))
    r = runner.run(p, o, raw=raw)
    if r.err:
        m.ev('crashed')
        return
    m.ev('runs')

    def same(a, b):
        if a is None or b is None:
            return a is b
        return isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    m.check(vars(opt) == snap[0], 'options-modified', lambda: '%r -> %r' % (snap[0], vars(opt)))
    for nm, a, b in (('x0', snap[1], x0), ('lb', snap[2], lb), ('ub', snap[3], ub), ('li', sl[0], li), ('ui', sl[1], ui)):
        m.check(same(a, b), 'argument-modified', lambda: '%s: %r -> %r' % (nm, a, b))
    if len(r.f) and np.any(np.array(r.f[0][0]) != p.x0):
        m.ev('x0_moved_inside')
    # same call again with the same objects gives the same run (nothing was consumed)
    if rr.random() < .4:
        r2 = runner.run(p, o, raw=raw)
        m.check(r2.err is None and r2.f == r.f and r2.flag == r.flag, 'second-call-differs', lambda: 'flag %r %r' % (r.flag, getattr(r2, 'flag', None)))
    # callbacks that scribble over their argument
    q = copy.copy(p)

    def f2(x):
        v = p.f(list(x))
        for i in range(len(x)):
            x[i] = 1e3
        return v

    def c2(x):
        v = p.c(list(x))
        for i in range(len(x)):
            x[i] = -1e3
        return v
    buf = [None]
    keep = []

    def c3(x):
        # one buffer returned at every call, and lists of earlier calls overwritten
        v = np.array(p.c(list(x)), float).ravel()
        if buf[0] is None:
            buf[0] = v.copy()
            keep.append(v)
        m.check(np.array_equal(buf[0], keep[-1], equal_nan=True), 'returned-array-modified', lambda: '%r -> %r' % (keep[-1], buf[0]))
        buf[0][:] = v
        keep.append(v)
        for t in args:
            for i in range(len(t)):
                t[i] = 7e2
        args.append(x)
        return buf[0]
    args = []
    q.f = f2
    if p.c is not None:
        q.c = rr.choice([c2, c3])
        if q.c is c3:
            m.ev('reused_buffers')
    m.ev('hostile_callbacks')
    r3 = runner.run(q, o, raw=dict(raw))
    if r3.err:
        m.ev('crashed')
        return
    m.check(r3.f == r.f and r3.flag == r.flag and np.array_equal(r3.xv, r.xv), 'callback-aliasing',
            lambda: 'run changes when a user function overwrites its argument: flag %r/%r evals %d/%d' % (r.flag, r3.flag, len(r.f), len(r3.f)))
    m.nontrivial(p.desc(), o)
    m.sample(dict(problem=p.desc(), options=o, flag=r.flag))
