"""The trust-region radius follows the agreement between the models and the functions."""
import random
import re
import numpy as np
import e2e
import hooks
import probgen
import runner
from checks.C06 import R_ACC, R_REJ

RULE = ('case = smooth or hostile problem x random options; trace of every step computation (radius used), rebuild of the interpolation set '
        '(radius used) and acceptance decision; non-trivial = at least one accepted and one rejected step; distinct by (problem, options, nsimul)')
ASSUMPTIONS = ['ratios are read from the printed trace (printed digits allowed for)', 'radius below which the gradient estimate is not improved: 1e-5',
               'initial radius 1 (less in narrow boxes)']
MIN = {'runs': 100, 'steps': 2000, 'after_accept': 500, 'after_reject': 500, 'after_rebuild': 300, 'boundary_growth': 100, 'status15': 8,
       'reported_radius': 300, 'report_rows': 300, 'status15_row': 5}

NAMES = ['simul', 'x', 'lb', 'ub', 'delta', 'mi', 'me', 'M']
RNAMES = ['QZ', 'RZ', 'Y', 'Delta']
# a vanishing step may be tried once per halving of the radius from 1 to 1e-10
MULT = 60
NUMS = re.compile(r'^\s*\d+\s+\d+\s+[-+]?(?:\d|inf|nan)')


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 300, 4000, 27)]


def run_case(case, m):
    s = case['s']
    rr = random.Random('C27-%s' % s)
    p = probgen.hostile(s) if rr.random() < 0.3 else probgen.general(s)
    o = probgen.rand_options(s)
    o['verbose'] = rr.choice([3, 3, 5, 5, 5])
    o['msimul'] = rr.choice([60, 120, 250, 500])
    if rr.random() < .4:
        o['tol_grad'] = o['tol_feas'] = rr.choice([1e-9, 1e-12])
    ev = []

    def step(a, k):
        d = hooks.bind(None, NAMES, a, k)
        print('\n@@STEP %r' % float(d['delta']))

    def stepped(a, k, r, tok):
        d = hooks.bind(None, NAMES, a, k)
        print('\n@@NORM %r' % float(np.linalg.norm(np.ravel(r[0]) - np.ravel(d['x']))))
        print('\n@@ACTIVE %d' % int(bool(np.ravel(r[3])[0]) or bool(np.ravel(r[4])[0])))

    def rebuild(a, k):
        d = hooks.bind(None, RNAMES, a, k)
        print('\n@@REBUILD %r' % float(d['Delta']))
    with hooks.Hook() as h:
        h.wrap('sqpdfo_solve_TR_bc', 'sqpdfo_solve_TR_bc_', before=step, after=stepped)
        h.wrap('bcdfo_repair_Y', 'bcdfo_repair_Y_', before=rebuild)
        r = runner.run(p, o)
    for e in h.errors:
        m.ev('hook_error_' + type(e).__name__)
    if r.err or r.flag in (1, 2):
        m.ev('no_run')
        return
    m.ev('runs')
    cur = None
    acc = rej = 0
    for line in r.out.splitlines():
        if line.startswith('@@STEP'):
            cur = dict(delta=float(line.split()[1]), reb=None, norm=None, act=0, acc=None, rej=None, unsure=False)
            ev.append(cur)
        elif line.startswith('@@NORM') and cur:
            cur['norm'] = float(line.split()[1])
        elif line.startswith('@@ACTIVE') and cur:
            cur['act'] = int(line.split()[1])
        elif line.startswith('@@REBUILD') and cur:
            if cur['reb'] is None:
                cur['reb'] = []
            cur['reb'].append(float(line.split()[1]))
        elif 'should be positive' in line or 'predicted reduction is 0' in line:
            if cur:
                cur['unsure'] = True
        elif 'Trust radius =' in line and cur:
            pass
        if cur:
            t = R_ACC.search(line)
            if t:
                cur['acc'] = [float(z) for z in t.groups()]
            t = R_REJ.search(line)
            if t:
                cur['rej'] = [float(z) for z in t.groups()]
        if NUMS.match(line):
            t = line.split()
            c = 6 if p.me + p.mi else 5
            if len(t) >= c + 3:
                ev.append(dict(row=float(t[c]), now=cur['delta'] if cur else None))
        t = re.search(r'Trust radius =\s*(\S+)', line)
        if t:
            ev.append(dict(printed=float(t.group(1))))
    prev = None
    pr = None
    same = worst = 0
    rows = [e for e in ev if 'row' in e]
    for k, e in enumerate(rows):
        last = k == len(rows) - 1 and r.flag == 15
        if not last and e['now'] is not None:
            m.ev('report_rows')
            m.check(abs(e['row'] - e['now']) <= .006 * e['now'], 'radius-in-report', lambda: 'row shows %r, last step computed within %r' % (e['row'], e['now']))
        if last:
            m.ev('status15_row')
            m.check(e['row'] <= 1.01e-10 or e['row'] <= 2.3e-15 * np.linalg.norm(r.xv), 'small-radius-status', lambda: 'status 15 with radius %r' % e['row'])
    ev = [e for e in ev if 'row' not in e]
    for e in ev:
        if 'printed' in e:
            pr = e['printed']
            continue
        D = e['delta']
        m.ev('steps')
        if pr is not None:
            m.ev('reported_radius')
            m.check(abs(pr - D) <= .006 * D, 'reported-radius', lambda: 'printed %r, step computed within %r' % (pr, D))
        pr = None
        if not m.check(np.isfinite(D) and D > 0, 'radius-not-positive', lambda: repr(D)):
            return
        m.check(D <= 2.5e5, 'radius-unbounded', lambda: 'radius %r' % D)
        if prev is None:
            m.check(D <= 1.0 or ev[0].get('reb'), 'initial-radius', lambda: repr(D))
        else:
            d = lambda: 'radius %r -> %r, step %r boundary %r accepted %r rejected %r rebuilt in %r' % (
                prev['delta'], D, prev['norm'], prev['act'], prev['acc'], prev['rej'], prev['reb'])
            if prev['reb'] is not None:
                m.ev('after_rebuild')
                m.check(D == prev['reb'][-1], 'rebuild-radius', d)
                # the set is never rebuilt in a larger ball than needed
                top = max(5 * prev['delta'], 2 * (prev['norm'] or 0), 1e-5) if prev['acc'] else max(prev['delta'], 1e-5)
                m.check(D <= top * (1 + 1e-9), 'rebuild-enlarges', d)
            elif prev['acc'] and not prev['rej']:
                m.ev('after_accept')
                acc += 1
                m.check(D >= prev['delta'] * (1 - 1e-12), 'accepted-step-shrinks', d)
                m.check(D <= max(5 * prev['delta'], 2 * prev['norm'], 0) * (1 + 1e-3) + 1e-300 or p.mi, 'growth-too-fast', d)
                if prev['act'] and prev['acc'][0] >= 1e-3 and prev['norm'] >= .99 * prev['delta'] and prev['delta'] < 5e4:
                    m.ev('boundary_growth')
                    m.check(D >= 1.9 * prev['delta'], 'no-growth-at-boundary', d)
            elif prev['rej'] and not prev['acc']:
                m.ev('after_reject')
                rej += 1
                m.check(D <= prev['delta'] * (1 + 1e-12), 'rejected-step-enlarges', d)
                if prev['delta'] > 1.0001e-5:
                    m.check(D <= .5 * prev['delta'] * (1 + 1e-9), 'rejected-step-keeps-radius', d)
                    m.check(D >= .00999 * min(prev['delta'], prev['norm'] or 0) * (1 - 1e-9), 'shrinks-too-much', d)
            elif not prev['acc'] and not prev['rej'] and not prev['unsure']:
                m.ev('undecided')
            same = same + 1 if prev['reb'] is None and not prev['acc'] and D == prev['delta'] else 0
            worst = max(worst, same)
        prev = e
    np_ = (p.n + 1) * (p.n + 2) // 2
    m.check(worst <= 8 * np_, 'stalls', lambda: '%d consecutive rejected steps at one radius (n=%d)' % (worst, p.n))
    mult = {}
    for x, v in r.f:
        mult[x] = mult.get(x, 0) + 1
    top = max(mult.values()) if mult else 0
    m.data.append([worst / np_, top, len(r.f), p.n])
    m.check(top <= MULT, 'same-point-over-and-over', lambda: 'one point evaluated %d times in %d evaluations (n=%d, flag %r)' % (top, len(r.f), p.n, r.flag))
    if r.flag == 15:
        m.ev('status15')
    if acc and rej:
        m.nontrivial(p.desc(), o, r.nsimul)
        m.sample(dict(problem=p.desc(), options=o, accepted=acc, rejected=rej, steps=len(ev), flag=r.flag))


def finalize(data, counts, tier):
    counts['max:evaluations of one point'] = max([d[1] for _, d in data] or [0])
    return []
