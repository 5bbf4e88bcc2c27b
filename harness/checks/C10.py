"""Arguments and options: bad ones are refused without an evaluation, good ones mean what they say."""
import copy
import functools
import random
import numpy as np
import e2e
import probgen
import runner

RULE = ('case = problem x one argument scenario: an invalid option/argument (status 1 or 2, zero user-function calls, no exception) or an '
        'equivalent way of writing the same call (letter case, blanks, omitted defaults, kind of callable, nested lists, zero tolerances, None/infinite/huge bounds, row/column '
        'start vector, extra attributes) whose run must be identical; non-trivial = all; distinct by (scenario, problem, options)')
ASSUMPTIONS = ['default values as documented by the option setter: verbose 1, tolerances 1e-5, 1000 iterations/evaluations, model Hessian, Subbasis, '
               'diagonal final degree']
MIN = {'rejected_scenarios': 60, 'equivalent_scenarios': 60}

BAD_OPT = [
    dict(hess_approx='newton'), dict(hess_approx=''), dict(hess_approx='models'), dict(hess_approx='bfg'),
    dict(whichmodel='sub'), dict(whichmodel='quadratic'), dict(whichmodel='l2'), dict(whichmodel='frob norms'),
    dict(final_degree='cubic'), dict(final_degree=''), dict(final_degree='quad'),
    dict(algo_descent='steepest'),
    dict(miter=0), dict(miter=-1), dict(msimul=0), dict(msimul=-5),
    dict(hess_approx=1), dict(hess_approx=None), dict(whichmodel=2), dict(whichmodel=None), dict(final_degree=True), dict(algo_descent=0),
    dict(miter=float('nan')), dict(msimul=float('nan')), dict(tol_grad=float('nan')), dict(tol_feas=float('nan')), dict(tol_bnds=float('nan')),
    dict(dxmin=float('nan')), dict(inf=float('nan')), dict(miter='10'), dict(msimul=None), dict(tol_grad='1e-3'), dict(tol_feas=[]), dict(dxmin=None),
    dict(inf='inf'), dict(tol_bnds=None),
    dict(tol_grad=-1e-5), dict(tol_feas=-1e-9), dict(tol_bnds=-1.0), dict(dxmin=0), dict(dxmin=-1e-8), dict(inf=0), dict(inf=-5.0),
]
SCEN_BAD = ['opt'] * 8 + ['lbub', 'lbub', 'allfixed', 'nof', 'nox0', 'noc', 'opt2', 'callf', 'callc', 'nbounds', 'nanx0', 'counts', 'limits', 'fewc']
SCEN_EQ = ['case', 'blanks', 'defaults', 'zerotol', 'zerotol', 'zerotol', 'zerotol', 'zerotol', 'nobounds', 'hugebounds', 'rowx0', 'lists', 'onedim', 'noopt', 'verb_out', 'extra', 'meNone', 'algo', 'liui', 'twosided', 'twosided', 'opt_inf', 'infbounds', 'infbounds', 'infbounds', 'fout', 'ints', 'ints', 'ints', 'valueform', 'valueform', 'intvalues', 'callable', 'callable', 'nested', 'nested', 'empty',
           'limitform', 'limitform', 'countform']


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 520, 3600, 10)]


def alt(rr, t):
    return ''.join(c.upper() if rr.random() < .5 else c.lower() for c in t)


def blanks(rr, t):
    out = ''
    for c in t:
        if rr.random() < .3:
            out += ' ' * rr.choice([1, 2])
        out += c
    return out + ' ' * rr.choice([0, 1, 3])


class Holder:
    def __init__(self, g):
        self.g = g

    def method(self, x):
        return self.g(x)

    def __call__(self, x):
        return self.g(x)



def static(g):
    t = type('T', (), {'g': staticmethod(g)})
    return t.g


CALLS = [lambda g: Holder(g).method, lambda g: Holder(g), lambda g: functools.partial(g), lambda g: (lambda *a: g(*a)),
         lambda g: functools.partial(lambda k, x: g(x), 3), static]

DEF = dict(hess_approx='model', whichmodel='Subbasis', final_degree='diagonal', tol_grad=1e-5, tol_feas=1e-5, tol_bnds=1e-5,
           miter=1000, msimul=1000)


def run_case(case, m):
    s = case['s']
    rr = random.Random('C10-%s' % s)
    p = probgen.general(s, nmax=4)
    o = probgen.rand_options(s, msimul=40)
    o['verbose'] = rr.choice([0, 0, 1, 2, 4])
    if rr.random() < 0.5:
        sc = rr.choice(SCEN_BAD)
        m.ev('rejected_scenarios')
        m.ev('bad_' + sc)
        raw = {}
        want = {1}
        if sc in ('opt', 'opt2'):
            bad = rr.choice(BAD_OPT)
            if sc == 'opt2':
                bad = dict(bad, **rr.choice(BAD_OPT))
            o.update(bad)
            what = bad
        elif sc == 'lbub':
            i = rr.randrange(p.n)
            p.lb[i] = rr.gauss(0, 1)
            p.ub[i] = p.lb[i] - 10 ** rr.uniform(-6, 1)
            want = {2}
            what = 'lb>ub in component %d' % i
        elif sc == 'allfixed':
            p.lb = p.x0.copy()
            p.ub = p.x0.copy()
            want = {2}
            what = 'all variables fixed'
        elif sc == 'nof':
            raw['func_f'] = None
            what = 'no objective'
        elif sc == 'callf':
            raw['func_f'] = rr.choice([3, 'f', [1.0], np.zeros(p.n)])
            what = 'objective %r' % (raw['func_f'],)
        elif sc == 'callc':
            raw['func_c'] = rr.choice([3, 'c', [1.0], np.zeros(p.n)])
            raw['me'], raw['mi'] = rr.choice([(1, 0), (0, 1), (0, 0)])
            what = 'constraint function %r' % (raw['func_c'],)
        elif sc == 'nbounds':
            k = rr.choice(['lb', 'ub'])
            v = list(getattr(p, k))
            v = v + [v[-1]] * rr.randrange(1, 3) if (rr.random() < .5 or p.n == 1) else v[:-1]
            raw[k] = rr.choice([v, np.array(v), runner.col(v)])
            what = '%d values of %s' % (len(v), k)
        elif sc == 'nanx0':
            raw['x0'] = runner.col(p.x0)
            raw['x0'][rr.randrange(p.n)] = np.nan
            what = 'NaN start'
        elif sc == 'counts':
            k = rr.choice(['me', 'mi'])
            raw[k] = rr.choice([-1, -3, 0.5, 1.5, float('nan'), float('inf'), 'x', [1, 2]])
            raw['func_c'] = lambda x: [1.0, 2.0, 3.0]
            what = '%s=%r' % (k, raw[k])
        elif sc == 'limits':
            A = np.array([[rr.gauss(0, 1) for _ in range(p.n)] for _ in range(3)])
            p.me, p.mi = rr.choice([(0, 2), (1, 2), (0, 3)])
            p.c = lambda x, A=A, k=p.me + p.mi: (A @ np.array(x, float))[:k]
            k = rr.choice(['li', 'ui'])
            raw[k] = rr.choice([[0.0], np.zeros(p.me + p.mi - 1), []])
            what = '%d values of %s' % (len(raw[k]), k)
        elif sc == 'fewc':
            have = rr.randrange(0, 3)
            p.me, p.mi = 0, have + rr.randrange(1, 3)
            p.c = lambda x: np.array([1.0 + x[0], 2.0 - x[0]][:have])
            want = {2}
            what = '%d values for %d inequalities' % (have, p.mi)
        elif sc == 'nox0':
            raw['x0'] = None
            what = 'no x0'
        else:
            raw['func_c'] = None
            raw['me'], raw['mi'] = rr.choice([(1, 0), (0, 1), (2, 3)])
            what = 'no constraint function'
        r = runner.run(p, o, raw=raw)
        if r.err:
            e2e.crash(m, r, 'raised-on-%s' % (sc if sc != 'opt2' else 'opt'))
            return
        m.check(r.flag in want, 'bad-argument-accepted', lambda: '%r: flag %r' % (what, r.flag))
        if sc == 'fewc':
            m.check(len(r.f) <= p.n + 1, 'evaluated-on-bad-argument', lambda: '%r: %d evaluations' % (what, len(r.f)))
        else:
            m.check(len(r.f) == 0 and len(r.c) == 0, 'evaluated-on-bad-argument', lambda: '%r: %d evaluations' % (what, len(r.f)))
        m.nontrivial(sc, what, p.desc(), o.get('verbose'))
        m.sample(dict(scenario=sc, what=what, flag=r.flag))
        return
    sc = rr.choice(SCEN_EQ)
    m.ev('equivalent_scenarios')
    m.ev('eq_' + sc)
    raw, raw2 = {}, {}
    o2 = dict(o)
    p2 = p
    if sc == 'case':
        for k in ('hess_approx', 'whichmodel', 'final_degree'):
            o2[k] = alt(rr, o[k])
    elif sc == 'blanks':
        for k in ('hess_approx', 'whichmodel', 'final_degree'):
            o2[k] = blanks(rr, o[k])
    elif sc == 'defaults':
        for k in list(DEF):
            if k == 'msimul':
                continue
            if rr.random() < .5:
                o[k] = DEF[k]
                o2.pop(k, None)
        o['msimul'] = o2['msimul'] = 60
        if rr.random() < .5:
            o['verbose'] = 1
            o2.pop('verbose')
        for k, v in o2.items():
            o[k] = v
    elif sc == 'zerotol':
        # a tolerance given as zero, left out or given as its default is the same, whatever the other tolerances are
        ks = ['tol_grad', 'tol_feas', 'tol_bnds']
        z = rr.choice(['tol_grad', 'tol_feas', 'tol_feas', 'tol_bnds'])
        for k in ks:
            if k != z and rr.random() < .6:
                o[k] = o2[k] = 10.0 ** rr.uniform(-4, -0.5)
            elif k == z or rr.random() < .3:
                o[k] = 1e-5
                o2[k] = rr.choice([0, 0.0])
                if rr.random() < .3:
                    o2.pop(k)
        o['msimul'] = o2['msimul'] = 150
    elif sc == 'nobounds':
        p.lb = np.full(p.n, -1e20)
        p.ub = np.full(p.n, 1e20)
        w = rr.choice([('lb',), ('ub',), ('lb', 'ub')])
        for k in w:
            raw2[k] = None
    elif sc == 'hugebounds':
        k = rr.choice(['lb', 'ub'])
        p.lb = np.full(p.n, -1e20)
        p.ub = np.full(p.n, 1e20)
        # same bounds, another float dtype container (fortran order / copied)
        raw2['lb'] = np.asfortranarray(runner.col(p.lb))
        raw2['ub'] = np.asfortranarray(runner.col(p.ub))
    elif sc == 'rowx0':
        if p.n == 1:
            return
        raw2['x0'] = runner.col(p.x0).T.copy()
    elif sc == 'lists':
        raw2['x0'] = [float(v) for v in p.x0]
        for k in ('lb', 'ub'):
            if rr.random() < .7:
                raw2[k] = [float(v) for v in getattr(p, k)]
    elif sc == 'nested':
        for k in ('x0', 'lb', 'ub'):
            if rr.random() < .7:
                v = [float(t) for t in getattr(p, k)]
                raw2[k] = rr.choice([[[t] for t in v], [v], tuple(v), tuple((t,) for t in v), v[0] if p.n == 1 else v])
    elif sc == 'empty':
        p.lb = np.full(p.n, -1e20)
        p.ub = np.full(p.n, 1e20)
        for k in rr.choice([('lb',), ('ub',), ('lb', 'ub')]):
            raw2[k] = rr.choice([[], (), np.array([]), np.zeros((0, 1))])
    elif sc == 'callable':
        pass
    elif sc == 'limitform':
        if not p.mi:
            return
        k = p.me + p.mi
        li, ui = np.zeros(k), np.array([0.0] * p.me + [1e9] * p.mi)
        raw['li'], raw['ui'] = li, ui
        form = rr.choice([lambda v: [float(t) for t in v], lambda v: tuple(v), runner.col, lambda v: [[float(t)] for t in v], lambda v: [float(t) for t in v] + [7.0],
                          lambda v: float(v[0]) if k == 1 else v, lambda v: v.reshape(1, -1)])
        raw2['li'] = form(li) if rr.random() < .8 else li
        raw2['ui'] = form(ui) if rr.random() < .8 else ui
    elif sc == 'countform':
        for k in ('me', 'mi'):
            v = getattr(p, k)
            raw2[k] = rr.choice([float, np.int64, np.float64, np.array, lambda t: np.array([t]), lambda t: bool(t) if t < 2 else t])(v)
    elif sc == 'onedim':
        for k in ('x0', 'lb', 'ub'):
            if rr.random() < .6:
                raw2[k] = np.array(getattr(p, k), float)
    elif sc == 'noopt':
        o = dict(DEF, verbose=1)
        o2 = None
    elif sc == 'verb_out':
        o['verbose'] = 1
        o2['verbose'] = rr.choice([-1, 7, 100])
    elif sc == 'extra':
        o2['something_else'] = 'x'
        o2['fout'] = 1
    elif sc == 'meNone':
        if p.me:
            return
        raw2['me'] = None
        if not p.mi:
            raw2['mi'] = None
    elif sc == 'algo':
        o2['algo_descent'] = rr.choice(['Powell', 'POWELL', ' powell'])
    elif sc == 'liui':
        if not p.mi:
            return
        raw2['li'] = np.full(p.me + p.mi, -1e9)
        raw2['ui'] = np.full(p.me + p.mi, 1e9)
    elif sc == 'twosided':
        # a constraint with both limits stands for two rows of the constraint function
        if p.mi < 2:
            return
        raw2['mi'] = p.mi - 1
        raw2['li'] = np.zeros(p.me + p.mi - 1)
        raw2['ui'] = np.array([0.0] * p.me + [1e9] * (p.mi - 1))
        raw2['ui'][p.me + rr.randrange(p.mi - 1)] = rr.choice([0.5, 3.0, 1e6])
    elif sc == 'opt_inf':
        o2['inf'] = np.inf
        o2['dxmin'] = 1e-8
    elif sc == 'infbounds':
        # a bound that is infinite or beyond what counts as infinite is no bound, however it is written
        if rr.random() < .4:
            p.lb, p.ub = np.full(p.n, -1e20), np.full(p.n, 1e20)
        lb, ub = [[float(t) for t in v] for v in (p.lb, p.ub)]
        far = [(v, i) for v in (lb, ub) for i in range(p.n) if abs(v[i]) >= 1e19]
        if not far:
            return
        top = rr.choice([None, None, np.inf, 1e20, 1e12])
        if top is not None:
            o2['inf'] = top
        for v, i in far:
            v[i] = float(np.sign(v[i])) * rr.choice([np.inf, np.inf, 1e20, 1e22, 1e50, 1e300])
        raw2['lb'], raw2['ub'] = runner.col(lb), runner.col(ub)
    elif sc == 'fout':
        o2['fout'] = rr.choice([1, -1])
    elif sc == 'ints':
        # whole numbers given as integers (arrays or lists) or as floats
        p.x0 = np.round(p.x0)
        p.lb = np.where(p.lb > -1e6, np.floor(p.lb), p.lb)
        p.ub = np.where(p.ub < 1e6, np.maximum(np.ceil(p.ub), p.lb + 1), p.ub)
        if not np.all(np.isfinite(p.lb)) or not np.all(np.isfinite(p.ub)):
            p.lb = np.maximum(p.lb, -10.0 ** 9)
            p.ub = np.minimum(p.ub, 10.0 ** 9)
        for k in ('x0', 'lb', 'ub'):
            v = getattr(p, k)
            if np.max(np.abs(v)) < 1e15 and (k == 'x0' or rr.random() < .6):
                raw2[k] = runner.col(v).astype(int) if rr.random() < .7 else [int(t) for t in v]
    elif sc == 'valueform':
        p2 = copy.copy(p)
        ff, fc = rr.choice([np.float64, lambda v: np.array([v]), np.array, lambda v: np.array([[v]])]), \
            rr.choice([list, tuple, lambda v: np.array(v).reshape(-1, 1), lambda v: np.array(v).reshape(1, -1), lambda v: [np.float64(t) for t in v]])
        p2.f = lambda x: ff(p.f(x))
        if p.c is not None:
            p2.c = lambda x: fc([float(t) for t in p.c(x)])
    elif sc == 'intvalues':
        p = copy.copy(p)
        f0, c0 = p.f, p.c
        rnd = lambda v: float(np.clip(np.round(4 * v), -1e9, 1e9)) + 0.0
        p.f = lambda x: rnd(f0(x))
        if c0 is not None:
            p.c = lambda x: np.array([rnd(t) for t in c0(x)])
        p2 = copy.copy(p)
        p2.f = lambda x: int(p.f(x))
        if c0 is not None:
            p2.c = lambda x: [int(t) for t in p.c(x)]
    r1 = runner.run(p, o, raw=raw)
    r2 = runner.run(p2, o2, raw=raw2, wrapcall=rr.choice(CALLS) if sc == 'callable' else None)
    if r1.err:
        m.ev('crashed')
        return
    if r2.err:
        e2e.crash(m, r2, 'raised-on-equivalent-%s' % sc)
        return
    m.check(runner.sig(r1) == runner.sig(r2), 'not-equivalent-' + sc,
            lambda: 'flags %r/%r evals %d/%d options %r vs %r raw %r' % (r1.flag, r2.flag, len(r1.f), len(r2.f), o, o2, list(raw2)))
    m.nontrivial(sc, p.desc(), o)
    m.sample(dict(scenario=sc, problem=p.desc(), flag=r1.flag, nsimul=r1.nsimul))
