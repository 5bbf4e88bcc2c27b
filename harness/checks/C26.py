"""Convergence is declared only on the strength of an accurate model: the final interpolation set is centred at the returned point,
small and poised, and the models of that set satisfy the optimality conditions with the returned multipliers."""
import random
import numpy as np
import e2e
import hooks
import polyref
import probgen
import runner
from checks.C21 import refcond
from checks.C22 import maxabs
from checks.C24 import NAMES

RULE = ('case = smooth problem x every kind of model, degree and coarse or fine tolerances; the last model computed in the run is captured and its set '
        'judged independently; non-trivial = status 0; distinct by (problem, options, nsimul)')
ASSUMPTIONS = ['accuracy test of the code: poisedness*radius/100 <= 1e-5, where a repaired set may extend 10 times beyond the radius for which its '
               'poisedness was measured; the check allows poisedness*radius <= 0.5 in the ball containing the set',
               'no variable fixed']
MIN = {'status0': 150, 'set_judged': 130, 'set_below_nominal': 80, 'residual_judged': 100, 'residual_constrained': 50, 'coarse': 60}


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 420, 5000, 26)]


def run_case(case, m):
    s = case['s']
    rr = random.Random('C26-%s' % s)
    p = probgen.general(s, nmax=rr.choice([2, 3, 6]))
    o = probgen.rand_options(s)
    o['tol_grad'] = rr.choice([1e-1, 3e-2, 1e-2, 1e-3, 1e-4, 1e-5])
    o['tol_feas'] = rr.choice([1e-2, 1e-3, 1e-4, 1e-5])
    o['verbose'] = 0
    st = {}

    def after_model(a, k, P, tok):
        d = hooks.bind(None, NAMES, a, k)
        Y = np.asarray(d['Y'], float)
        F = np.asarray(d['fY'], float)
        F = F.reshape(-1, Y.shape[1])
        m.ev('models')
        st.update(Y=Y.copy(), wm=int(d['wm']))
        if F.shape[0] == 1 + p.me + p.mi:
            st.update(Yf=Y.copy(), F=F.copy())
    with hooks.Hook() as h:
        h.wrap('bcdfo_computeP', 'bcdfo_computeP_', after=after_model)
        r = runner.run(p, o)
    for e in h.errors:
        m.ev('hook_error_' + type(e).__name__)
    if r.err or r.flag != 0:
        m.ev('other_status')
        return
    m.ev('status0')
    if 'Yf' not in st:
        m.ev('no_model_seen')
        return
    Y, F, wm = st['Yf'], st['F'], st['wm']
    n, np_ = Y.shape
    x = r.xv
    if not m.check(n == p.n and np.array_equal(x, Y[:, 0]), 'set-not-centred', lambda: 'x=%r first point %r' % (x.tolist(), Y[:, 0].tolist())):
        return
    rad = float(np.max(np.linalg.norm(Y - Y[:, [0]], axis=0)))
    cond = refcond(Y, wm)
    d = lambda: 'n=%d points %d model %d radius %g cond %g tol_grad %g' % (n, np_, wm, rad, cond, o['tol_grad'])
    if o['tol_grad'] >= 1e-2:
        m.ev('coarse')
    # rounding of the points: a radius near machine precision says nothing about poisedness
    if rad > 1e-7 * (1 + np.max(np.abs(x))):
        if m.check(cond < 1e11, 'degenerate-set', d):
            lam = max(maxabs(Y, wm, k, rad) for k in range(1, np_))
            m.ev('set_judged')
            if lam * rad <= 1e-3:
                m.ev('set_below_nominal')
            m.check(lam * rad <= 0.5, 'inaccurate-set', lambda: '%s poisedness %g' % (d(), lam))
            m.data.append([lam * rad <= 2e-3, o['tol_grad'] >= 1e-2])
    # the models of that set are stationary
    if cond < 1e7 and rad > 1e-7 * (1 + np.max(np.abs(x))):
        Yz, sY = polyref.shift(Y)
        G = []
        err = 0.0
        for i in range(F.shape[0]):
            cf = polyref.reference_model(Yz, F[i], wm)[0]
            G.append(polyref.grad_hess(cf, np.zeros(n), n)[0] / sY)
            err = max(err, (1e-9 + 1e-11 * cond) * (np.max(np.abs(F[i])) + np.max(np.abs(cf))) / sY)
        lm = np.asarray(r.lm, float).ravel()
        if m.check(len(lm) == n + p.me + p.mi and np.all(np.isfinite(lm)), 'multiplier-size', lambda: repr(lm)):
            res = G[0] + sum((lm[n + i] * G[1 + i] for i in range(p.me + p.mi)), np.zeros(n))
            act = (np.abs(x - p.lb) < 1e-5) | (np.abs(x - p.ub) < 1e-5)
            res = np.where(act, res + lm[:n], res)
            tol = 100 * o['tol_grad'] * (1 + 1e-6) + err * (1 + np.sum(np.abs(lm)))
            m.ev('residual_judged')
            if p.c is not None:
                m.ev('residual_constrained')
            m.check(np.max(np.abs(res)) <= tol, 'model-not-stationary', lambda: '%s residual %r allowed %g lm %r' % (d(), res.tolist(), tol, lm.tolist()))
    m.nontrivial(p.desc(), o, r.nsimul)
    m.sample(dict(problem=p.desc(), options=o, radius=rad, cond=cond, nsimul=r.nsimul))


def finalize(data, counts, tier):
    tot, ok = len(data), sum(1 for _, d in data if d[0])
    counts['rate:final sets within the nominal accuracy'] = ok
    counts['rate-total:final sets'] = tot
    if tot >= 100 and ok < .75 * tot:
        return [(data[0][0], 'rate-accuracy', 'only %d of %d final sets have poisedness*radius within twice the nominal accuracy' % (ok, tot))]
    return []
