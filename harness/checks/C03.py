"""Accounting and budgets: counters equal what the user functions saw; budgets bind; a larger budget
only continues the same run."""
import random
import e2e
import probgen
import runner

RULE = ('case = smooth or hostile problem x random options x budget pair (small budget and the unlimited run of the same problem); '
        'non-trivial = run returned after more than the initial evaluations; distinct by (problem, options, flag, nsimul)')
ASSUMPTIONS = ['user functions deterministic and finite', 'a repair batch may exceed msimul by at most the size of the interpolation set']
MIN = {'runs': 60, 'budget_stop_evals': 10, 'budget_stop_iters': 5, 'prefix_compared': 30, 'failed_runs': 20}


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 260, 2500, 3)]


def setsize(p, o):
    n = p.n
    d = {'linear': n + 1, 'diagonal': 2 * n + 1, 'quadratic': (n + 1) * (n + 2) // 2}[o.get('final_degree', 'diagonal')]
    if o.get('whichmodel') == 'Regression':
        d *= 2
    return d


def account(m, p, o, r):
    m.ev('runs')
    m.ev('evaluations', len(r.f))
    m.check(r.nsimul == len(r.f), 'nsimul', lambda: 'reported %r, objective called %d times, flag %r' % (r.nsimul, len(r.f), r.flag))
    if p.c is not None:
        ok = len(r.c) == len(r.f) and all(a[0] == b[0] for a, b in zip(r.f, r.c)) \
            and r.order == ['f', 'c'] * len(r.f)
        m.check(ok, 'pairing', lambda: '%d f calls, %d c calls' % (len(r.f), len(r.c)))
    ms, mt = o.get('msimul', 1000), o.get('miter', 1000)
    lim = max(ms - 1, p.n + 1) + max(1, setsize(p, o))
    m.check(len(r.f) <= lim, 'msimul-exceeded', lambda: '%d calls, msimul %d' % (len(r.f), ms))
    m.check(0 <= r.niter <= mt + 1, 'miter-exceeded', lambda: 'niter %r miter %r' % (r.niter, mt))
    if r.flag == 6:
        m.ev('budget_stop_evals')
        m.check(len(r.f) >= ms, 'flag6-early', lambda: '%d < %d' % (len(r.f), ms))
    if r.flag == 5:
        m.ev('budget_stop_iters')
        m.check(r.niter >= mt, 'flag5-early', lambda: '%r < %r' % (r.niter, mt))
    # a run that neither converged nor reached a budget nor met an error ran until the radius was tiny
    m.check(len(r.f) >= p.n + 1, 'no-initial-set', '%d' % len(r.f))


def run_case(case, m):
    s = case['s']
    rr = random.Random('C03-%s' % s)
    p = probgen.hostile(s) if rr.random() < 0.3 else probgen.general(s)
    o = probgen.rand_options(s)
    o['msimul'], o['miter'] = 200, 200
    full = runner.run(p, o)
    if full.err:
        m.ev('crashed')
        return
    account(m, p, o, full)
    m.nontrivial(p.desc(), o, full.flag, full.nsimul)
    N = len(full.f)
    o2 = dict(o)
    if rr.random() < 0.6:
        o2['msimul'] = max(1, rr.choice([1, 2, p.n + 1, p.n + 2, N // 2, N - 1, N // 3, rr.randrange(1, N + 1)]))
    else:
        o2['miter'] = max(1, rr.choice([1, 2, 3, full.niter // 2, full.niter - 1, rr.randrange(1, max(2, full.niter))]))
    r = runner.run(p, o2)
    if r.err:
        m.ev('crashed')
        return
    account(m, p, o2, r)
    m.ev('prefix_compared')
    k = len(r.f)
    m.check(r.f == full.f[:k], 'budget-changes-path',
            lambda: 'first difference at evaluation %d of %d/%d (budget %r)' % (
                next((i for i, (a, b) in enumerate(zip(r.f, full.f)) if a != b), min(k, N)), k, N,
                (o2['msimul'], o2['miter'])))
    if 'msimul' in o2 and o2['msimul'] < N and o2['miter'] == o['miter']:
        # the unlimited run needed more evaluations than this budget: it must be reported
        m.check(r.flag in (6, full.flag), 'budget-not-reported', lambda: 'flag %r, %d of %d evals' % (r.flag, k, N))
        if r.flag != 6:
            m.check(k >= min(N, o2['msimul']), 'budget-not-reported', '')
    if rr.random() < .3:
        # counters of a run ended by a failing user function
        k = rr.randrange(0, N)
        where = 'c' if (p.c is not None and rr.random() < .5) else 'f'
        q = runner.run(p, o, fault=(where, k, rr.choice(['exc', 'nan']), 0))
        if q.err:
            m.ev('crashed')
        elif q.fault_hit is not None:
            m.ev('failed_runs')
            m.check(q.nsimul == len(q.f), 'nsimul-after-failure', lambda: 'reported %r, objective called %d times, flag %r' % (q.nsimul, len(q.f), q.flag))
            m.check(0 <= q.niter <= o['miter'] + 1, 'miter-exceeded', lambda: 'niter %r' % q.niter)
    m.nontrivial(p.desc(), o2, r.flag, r.nsimul)
    m.sample(dict(problem=p.desc(), msimul=o2['msimul'], miter=o2['miter'], flag=r.flag, nsimul=r.nsimul, niter=r.niter))
