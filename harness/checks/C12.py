"""History file and printed table are truthful."""
import os
import random
import re
import numpy as np
import e2e
import probgen
import runner

RULE = ('case = smooth or hostile problem x options at verbosity 1..3 (and 0, 4+ for the file frame); every row of convhist.m and of the printed '
        'table is checked against the recorded evaluations; non-trivial = at least 3 rows; distinct by (problem, options, nsimul)')
ASSUMPTIONS = ['columns: iteration, evaluations, f, merit, |grad L| [, feasibility]', 'with inequality constraints the feasibility column is only bounded below']
MIN = {'rows_checked': 600, 'files_checked': 60, 'rows_with_feasibility': 200, 'messages': 50, 'reports_compared': 50}


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 300, 3000, 12)]


def run_case(case, m):
    s = case['s']
    rr = random.Random('C12-%s' % s)
    p = probgen.hostile(s) if rr.random() < 0.3 else probgen.general(s)
    o = probgen.rand_options(s)
    o['msimul'] = rr.choice([p.n + 1, 30, 90, 150])
    o['verbose'] = rr.choice([0, 1, 1, 1, 2, 3, 3, 4])
    if rr.random() < .2:
        o['miter'] = rr.choice([1, 2, 6, 15])
    stale = rr.random() < .5
    with open('convhist.m', 'w') as fh:
        fh.write('garbage of an earlier run\n' if stale else '')
    r = runner.run(p, o)
    if r.err or r.flag in (1, 2):
        m.ev('crashed')
        return
    txt = open('convhist.m').read()
    m.ev('files_checked')
    m.check(txt.startswith('function A=history'), 'file-header', lambda: txt[:80])
    m.check(txt.rstrip().endswith('];') and txt.count('];') == 1 and txt.count('A=[') == 1, 'file-frame', lambda: txt[-80:])
    body = txt.split('A=[', 1)[1].rsplit('];', 1)[0] if 'A=[' in txt else ''
    rows = [[float(t) for t in l.split()] for l in body.splitlines() if l.strip()]
    if o['verbose'] in (0, 4):
        m.check(len(rows) == 0 or o['verbose'] == 4, 'rows-when-silent', lambda: '%d rows' % len(rows))
        return
    if r.flag == 3:
        return
    m.check(len(rows) > 0, 'no-rows', lambda: 'flag %r' % r.flag)
    con = p.me + p.mi > 0
    fv = np.array([v for x, v in r.f])
    if con:
        C = np.array([c for x, c in r.c])
        E = np.abs(C[:, :p.me]).max(axis=1) if p.me else np.zeros(len(C))
        lowb = np.maximum(E, np.maximum(0, -C[:, p.me:]).max(axis=1)) if p.mi else E
    prev = None
    w = len(rows[0]) if rows else 0
    for k, row in enumerate(rows):
        m.ev('rows_checked')
        if not m.check(len(row) == w and len(row) >= 5, 'row-shape', lambda: repr(row)):
            break
        it, ne, f = int(row[0]), int(row[1]), row[2]
        m.check(row[0] == it and row[1] == ne and 0 <= ne <= len(fv), 'row-evaluations', lambda: '%r of %d' % (row, len(fv)))
        if prev is not None:
            m.check(ne >= prev[1] and prev[0] <= it <= prev[0] + 1, 'row-order', lambda: '%r after %r' % (row, prev))
        near = np.abs(fv[:ne] - f) <= 2e-8 * np.abs(fv[:ne]) + 1e-300
        if not m.check(bool(near.any()), 'row-f-not-evaluated', lambda: 'row %d f=%r not among the first %d values' % (k, f, ne)):
            break
        if con and len(row) >= 6:
            m.ev('rows_with_feasibility')
            fe = row[5]
            cand = lowb[:ne][near]
            if p.mi:
                okf = bool(np.any(fe >= cand * (1 - 2e-4) - 1e-12))
            else:
                okf = bool(np.any(np.abs(fe - cand) <= 2e-4 * cand + 1e-12))
            m.check(okf, 'row-feasibility', lambda: 'row %d (f=%r) feasibility %r, true %r' % (k, f, fe, cand.tolist()[:5]))
        prev = (it, ne)
    if rows:
        m.check(abs(rows[-1][2] - float(r.info.f)) <= 2e-8 * abs(float(r.info.f)) + 1e-300, 'last-row-f', lambda: 'last row f=%r, returned f=%r flag %r' % (rows[-1][2], r.info.f, r.flag))
        m.check(rows[-1][1] == r.nsimul, 'last-row-evaluations', lambda: '%r vs %r flag %r' % (rows[-1], r.nsimul, r.flag))
        m.check(rows[-1][0] == r.niter, 'last-row-iterations', lambda: '%r vs %r flag %r' % (rows[-1], r.niter, r.flag))
    # final report
    t = re.search(r'Exit code (\d+)', r.out)
    m.check(t is not None and int(t.group(1)) == r.flag, 'printed-status', lambda: '%r flag %r' % (t and t.group(0), r.flag))
    t = re.search(r'Final function value\s+(\S+)', r.out)
    m.check(t is not None and abs(float(t.group(1)) - float(r.info.f)) <= 1e-5 * abs(float(r.info.f)) + 1e-300, 'printed-f', lambda: '%r f %r' % (t and t.group(1), r.info.f))
    t = re.search(r'nbr of function evaluations\s+(\d+)', r.out)
    m.check(t is not None and int(t.group(1)) == len(r.f), 'printed-nsimul', lambda: '%r vs %d' % (t and t.group(1), len(r.f)))
    t = re.search(r'nbr of iterations\s+(\d+)', r.out)
    m.check(t is not None and int(t.group(1)) == r.niter, 'printed-niter', lambda: '%r vs %r' % (t and t.group(1), r.niter))
    t = re.search(r'Exit code\s+(\d+):\s*([^\n]*)', r.out)
    if t:
        m.ev('messages')
        m.data.append([int(t.group(1)), t.group(2).strip()])
    # the optimality measures of the final report are those of the last history row
    if rows and len(rows[-1]) >= 5:
        m.ev('reports_compared')
        t = re.search(r'gradient of the (?:Lagrangian|objective function) \(inf norm\)\s+(\S+)', r.out, re.I)
        close = lambda a, b: abs(a - b) <= 2e-3 * max(abs(a), abs(b)) + 1e-300
        m.check(t is not None and close(float(t.group(1)), rows[-1][4]), 'printed-gradient', lambda: '%r, last row %r flag %r' % (t and t.group(1), rows[-1], r.flag))
        if con and len(rows[-1]) >= 6:
            t = re.search(r'feasibility\s+(\S+)\s+Counters', r.out) or re.search(r'\. feasibility\s+(\S+)', r.out[r.out.rfind('Optimality conditions'):])
            m.check(t is not None and close(float(t.group(1)), rows[-1][5]), 'printed-feasibility', lambda: '%r, last row %r flag %r' % (t and t.group(1), rows[-1], r.flag))
    if len(rows) >= 3:
        m.nontrivial(p.desc(), o, r.nsimul)
        m.sample(dict(problem=p.desc(), options=o, rows=len(rows), last=rows[-1], flag=r.flag))


WORDS = {0: ['converge'], 3: ['function evaluation'], 5: ['iteration'], 6: ['number of function evaluations'], 15: ['radius'], 16: ['radius']}


def finalize(data, counts, tier):
    """one message per status, different for different statuses, and telling which"""
    seen = {}
    out = []
    for idx, (code, msg) in data:
        seen.setdefault(code, {})[msg] = idx
    inv = {}
    for code, ms in seen.items():
        if len(ms) > 1:
            out.append((list(ms.values())[0], 'message-ambiguous', 'status %d printed as %r' % (code, sorted(ms))))
        for t, idx in ms.items():
            inv.setdefault(t, {})[code] = idx
            if not t:
                out.append((idx, 'message-missing', 'status %d has no message' % code))
            if code in WORDS and not any(w in t.lower() for w in WORDS[code]):
                out.append((idx, 'message-wrong', 'status %d printed as %r' % (code, t)))
    for t, cs in inv.items():
        if len(cs) > 1:
            out.append((list(cs.values())[0], 'message-shared', '%r printed for statuses %r' % (t, sorted(cs))))
    counts['statuses seen'] = len(seen)
    return out
