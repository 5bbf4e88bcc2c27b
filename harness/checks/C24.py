"""Inside real runs: the models are built from recorded evaluations of exactly the points in the set, and each step starts from the data of its iterate."""
import random
import numpy as np
import e2e
import hooks
import polyref
import probgen
import runner
from checks.C21 import refcond

RULE = ('case = smooth or hostile problem x random options; every model computation and every step computation of the run is hooked and compared '
        'with the recorded evaluations; non-trivial = run with at least 3 rebuilt models; distinct by (problem, options, nsimul)')
ASSUMPTIONS = ['no variable fixed', 'model values compared when the reference condition number is below 1e7']
MIN = {'models': 1500, 'steps': 800, 'model_interpolates': 800, 'gradients_compared': 400, 'lagrangian_models': 200, 'constraint_data': 300, 'hessians_compared': 200,
       'model_kinds_between': 300, 'bfgs_secants': 150, 'bfgs_restarts': 20, 'bfgs_positive': 200}


KIND = dict(subbasis=0, frobnorm=1, l2norm=2, regression=3)


def cases(tier, seed):
    return [dict(s=s) for s in e2e.seeds(tier, seed, 200, 2400, 24)]


NAMES = ['QZ', 'RZ', 'Y', 'fY', 'wm', 'P_old', 'ind_Y', 'i_xold', 'i_xplus', 'g', 'scale', 'shift_Y', 'Delta0']
HESS = ['simul', 'x', 'null_step', 'constrained_pbl', 'lm', 'M', 'n', 'me', 'mi', 's', 'gx', 'gci', 'gce', 'info', 'options', 'values', 'fcmodel',
        'Y', 'fY', 'ciY', 'ceY', 'sigma', 'scale', 'shift_Y', 'QZ', 'RZ', 'whichmodel', 'ind_Y', 'i_xbest', 'm']
STEP = ['simul', 'x', 'lb', 'ub', 'delta', 'mi', 'me', 'M', 'prec_r', 'prec_t', 'info', 'options', 'values', 'rej', 'lm', 'ceY', 'ciY', 'gx', 'indfree']


def run_case(case, m):
    from sqpdfo.bcdfo_evalP import bcdfo_evalP_ as eP
    import sqpdfo.sqpdfo_global_variables as glob
    s = case['s']
    rr = random.Random('C24-%s' % s)
    p = probgen.hostile(s) if rr.random() < 0.2 else probgen.general(s)
    o = probgen.rand_options(s)
    o['msimul'] = rr.choice([30, 60, 120])
    if o['hess_approx'] == 'bfgs' and rr.random() < .5:
        o['bfgs_restart'] = rr.choice([3, 5, 10, 1000])
    n = p.n
    q = polyref.nq(n)
    vals = {}
    st = dict(models=0, most=0, cond=None, P=None, Y=None)
    nc = p.me + p.mi

    class Q:
        pass
    pp = Q()
    pp.__dict__.update(p.__dict__)
    pp.n = p.n

    def f(x):
        v = p.f(x)
        vals.setdefault(tuple(float(t) for t in x), {})['f'] = v
        return v
    pp.f = f
    if p.c is not None:
        def c(x):
            v = p.c(x)
            vals.setdefault(tuple(float(t) for t in x), {})['c'] = np.array(v, float).ravel()
            return v
        pp.c = c

    def rec(x):
        d = vals.get(tuple(float(t) for t in np.ravel(x)))
        if d is None or 'f' not in d:
            return None
        return np.concatenate([[d['f']], d.get('c', np.zeros(0))])

    def after_model(a, k, P, tok):
        d = hooks.bind(None, NAMES, a, k)
        Y, F, wm = np.asarray(d['Y'], float), np.asarray(d['fY'], float), int(d['wm'])
        F = F.reshape(-1, Y.shape[1]) if F.size % Y.shape[1] == 0 else F
        npts = Y.shape[1]
        st['models'] += 1
        m.ev('models')
        top = dict(linear=n + 1, diagonal=2 * n + 1, quadratic=q)[o['final_degree'].lower()]
        mx = 2 * top if o['whichmodel'].lower() == 'regression' else top
        if not m.check(Y.shape[0] == n and F.shape[1] == npts and n + 1 <= npts <= mx, 'model-size', lambda: 'Y %r values %r' % (Y.shape, F.shape)):
            return
        R = [rec(Y[:, j]) for j in range(npts)]
        if not m.check(all(r is not None for r in R), 'point-never-evaluated', lambda: 'column %d of %d' % ([r is None for r in R].index(True), npts)):
            return
        R = np.array(R).T
        if F.shape[0] == 1 + nc:
            bad = np.abs(F - R) > 1e-13 * np.abs(R)
            m.check(not np.any(bad), 'value-of-another-point', lambda: 'row/column %r: %r, recorded %r' % (np.argwhere(bad)[0].tolist(), F[tuple(np.argwhere(bad)[0])], R[tuple(np.argwhere(bad)[0])]))
            if nc:
                m.ev('constraint_data', npts)
        elif F.shape[0] == 1:
            # model of the Lagrangian: f + lm'(c - slacks^2): affine in the recorded values with the multipliers
            m.ev('lagrangian_models')
            lm = st.get('lm')
            if lm is not None and nc:
                want = R[0] + lm @ (R[1:] - st['shift'][:, None])
                tol = 1e-9 * (np.abs(R[0]) + np.abs(lm) @ (np.abs(R[1:]) + st['shift'][:, None])) + 1e-300
                m.check(np.all(np.abs(F[0] - want) <= tol), 'lagrangian-values', lambda: '%r, expected %r (multipliers %r)' % (F[0].tolist(), want.tolist(), lm.tolist()))
                st['lagF'] = F[0].copy()
        # the model belongs to the set
        c = refcond(Y, wm)
        P = np.asarray(P, float)
        scale, xb = d['scale'], Y[:, [0]]
        if c < 1e7 and not (wm == 3 and npts > q) and np.all(np.isfinite(P)):
            m.ev('model_interpolates')
            fs = np.max(np.abs(F), axis=1)
            e = np.array([[float(np.ravel(eP(P[[k2], :], Y[:, [j]], xb, scale, 1))[0]) - F[k2, j] for j in range(npts)] for k2 in range(F.shape[0])])
            rel = np.max(np.abs(e), axis=1) / np.where(fs > 0, fs, 1)
            m.check(np.max(rel) <= 1e-10 * c + 1e-8, 'model-does-not-interpolate', lambda: 'relative error %r cond %g model %d points %d' % (rel.tolist(), c, wm, npts))
        # ... and is of the kind the options name
        kind = KIND[o['whichmodel'].lower()]
        st['most'] = max(st['most'], npts)
        c2 = refcond(Y, kind)
        if c2 < 1e7 and not (kind == 3 and npts > q) and np.all(np.isfinite(P)):
            m.ev('model_kinds')
            if n + 1 < npts < q:
                m.ev('model_kinds_between')
            Yz, sY = polyref.shift(Y)
            z = np.array([rr.gauss(0, .5) for _ in range(n)])
            for k2 in range(F.shape[0]):
                cf = polyref.reference_model(Yz, F[k2], kind)[0]
                got = float(np.ravel(eP(P[[k2], :], Y[:, [0]] + sY * z.reshape(-1, 1), xb, scale, 1))[0])
                want = polyref.evalp(cf, z)
                tol = (1e-10 * c2 + 1e-8) * (np.max(np.abs(cf)) + np.max(np.abs(F[k2]))) * (1 + z @ z)
                m.check(abs(got - want) <= tol, 'model-of-another-kind', lambda: '%s row %d: %r, expected %r cond %g points %d' % (o['whichmodel'], k2, got, want, c2, npts))
        if F.shape[0] == 1 + nc:
            st.update(P=P, Y=Y.copy(), cond=c, wm=wm, F=F.copy())

    def before_hess(a, k):
        d = hooks.bind(None, HESS, a, k)
        lm = np.ravel(np.asarray(d['lm'], float))
        st['lagF'] = None
        st['lm'] = None
        if nc and len(lm) == n + nc:
            st['lm'] = lm[n:]
            sl = glob.get_slacks()
            st['shift'] = np.concatenate([np.zeros(p.me), np.ravel(sl) ** 2 if p.mi else np.zeros(0)])
        info = d['info']
        d['g0'] = np.array(np.ravel(info.g), float) if hasattr(info, 'g') else None
        d['J0'] = np.array(info.ae, float) if nc and hasattr(info, 'ae') else np.zeros((0, n))
        d['M0'] = np.array(d['M'], float)
        return d

    def after_hess(a, k, res, d):
        M = np.asarray(res[0], float)
        st['lm'] = None
        if d['null_step']:
            return
        if o['hess_approx'].lower() == 'bfgs':
            bfgs(M, d, res[2])
            return
        Y, wm = np.asarray(d['Y'], float), int(d['whichmodel'])
        F = st['lagF'] if nc else np.ravel(d['fY'])
        c = refcond(Y, wm)
        if F is None or not c < 1e6 or len(F) != Y.shape[1]:
            return
        m.ev('hessians_compared')
        Yz, sY = polyref.shift(Y)
        cf = polyref.reference_model(Yz, F, wm)[0]
        H = polyref.grad_hess(cf, np.zeros(n), n)[1]
        sc = np.max(np.abs(F)) + np.max(np.abs(cf))
        m.check(M.shape == (n, n) and np.max(np.abs(M * sY ** 2 - H)) <= (1e-9 + 1e-11 * c) * sc, 'hessian-of-the-model', lambda: '%r, model of the Lagrangian %r (scaled) cond %g' % ((M * sY ** 2).tolist(), H.tolist(), c))

    def bfgs(M, d, info):
        # the approximation the option names: positive definite, and it maps the step to the change of the gradient of the Lagrangian
        if not np.all(np.isfinite(M)) or d['g0'] is None:
            m.ev('bfgs_not_finite')
            return
        m.ev('bfgs_updates')
        e, e0 = np.linalg.eigvalsh((M + M.T) / 2), np.linalg.eigvalsh((d['M0'] + d['M0'].T) / 2)
        sc = np.max(np.abs(M))
        m.check(np.max(np.abs(M - M.T)) <= 1e-10 * max(sc, np.max(np.abs(d['M0']))), 'bfgs-not-symmetric', lambda: repr(M.tolist()))
        if e0[0] > 1e-9 * e0[-1]:
            m.ev('bfgs_positive')
            m.check(e[0] >= -1e-8 * max(sc, e0[-1]), 'bfgs-not-positive-definite', lambda: 'eigenvalues %r after %r' % (e.tolist(), e0.tolist()))
        R = o.get('bfgs_restart', 0)
        if R > 0 and int(info.nsimul[1]) % R == 0:
            m.ev('bfgs_restarts')
            m.check(np.array_equal(M, np.eye(n)), 'bfgs-not-restarted', lambda: repr(M.tolist()))
            return
        s_ = np.ravel(np.asarray(d['s'], float))
        lm = np.ravel(np.asarray(d['lm'], float))[n:n + nc]
        g1, J1 = np.ravel(np.asarray(d['gx'], float)), np.asarray(d['gce'], float).reshape(nc, -1) if nc else d['J0']
        a, b = g1 + J1.T @ lm, d['g0'] + d['J0'].T @ lm
        y = a - b
        size = np.max(np.abs(g1)) + np.max(np.abs(d['g0'])) + (np.abs(J1).T @ np.abs(lm) + np.abs(d['J0']).T @ np.abs(lm)).max() if nc else np.max(np.abs(g1)) + np.max(np.abs(d['g0']))
        sMs, ys, ss = s_ @ d['M0'] @ s_, y @ s_, s_ @ s_
        if not (ss > 0 and ys > 0.3 * sMs and ys > 1e-6 * size * np.sqrt(ss)):
            m.ev('bfgs_corrected_or_tiny')
            return
        m.ev('bfgs_secants')
        tol = 1e-8 * (sc * np.sqrt(ss) + size) + 1e-14
        m.check(np.max(np.abs(M @ s_ - y)) <= tol, 'bfgs-not-the-gradient-change', lambda: 'M s %r, change of the gradient of the Lagrangian %r' % ((M @ s_).tolist(), y.tolist()))

    def before_step(a, k):
        d = hooks.bind(None, STEP, a, k)
        x = np.ravel(np.asarray(d['x'], float))
        m.ev('steps')
        R = rec(x)
        if not m.check(R is not None, 'step-from-unevaluated-point', lambda: 'x=%r' % x.tolist()):
            return
        info = d['info']
        m.check(float(np.ravel(info.f)[0]) == R[0], 'step-objective-value', lambda: 'info.f %r, recorded %r' % (info.f, R[0]))
        if nc:
            ce = np.ravel(np.asarray(info.ce, float))
            m.check(len(ce) == nc and np.array_equal(ce, R[1:]), 'step-constraint-values', lambda: '%r != %r' % (ce.tolist(), R[1:].tolist()))
        if st['P'] is None:
            return
        P, Y, wm, c = st['P'], st['Y'], st['wm'], st['cond']
        m.check(np.array_equal(x, Y[:, 0]), 'step-not-from-centre', lambda: 'x=%r centre %r' % (x.tolist(), Y[:, 0].tolist()))
        gx = np.ravel(np.asarray(d['gx'], float))
        M = np.asarray(d['M'], float)
        m.check(M.shape == (n, n) and np.max(np.abs(M - M.T)) <= 1e-8 * (1 + np.max(np.abs(M))), 'step-hessian-symmetric', lambda: repr(M.tolist()))
        if not c < 1e6:
            return
        m.ev('gradients_compared')
        Yz, sY = polyref.shift(Y)
        rows = [gx] + ([np.asarray(info.ae, float)[i] for i in range(nc)] if nc else [])
        F = st['F']
        for i, g in enumerate(rows):
            cf = polyref.reference_model(Yz, F[i], wm)[0]
            gr, Hr = polyref.grad_hess(cf, np.zeros(n), n)
            sc = np.max(np.abs(F[i])) + np.max(np.abs(cf))
            m.check(np.max(np.abs(g * sY - gr)) <= (1e-9 + 1e-11 * c) * sc, 'step-gradient' if i == 0 else 'step-jacobian',
                    lambda: 'row %d %r, model %r (scaled) cond %g' % (i, (g * sY).tolist(), gr.tolist(), c))

    with hooks.Hook() as h:
        h.wrap('bcdfo_computeP', 'bcdfo_computeP_', after=after_model)
        h.wrap('sqpdfo_computeHessian', 'sqpdfo_computeHessian_', before=before_hess, after=after_hess)
        h.wrap('sqpdfo_solve_TR_bc', 'sqpdfo_solve_TR_bc_', before=before_step)
        r = runner.run(pp, o)
    for e in h.errors:
        # malformed data (a renamed parameter would be a KeyError and only be counted)
        m.ev('hook_error_' + type(e).__name__)
        if isinstance(e, (IndexError, ValueError)):
            m.bad('malformed-data', repr(e))
    if r.err:
        m.ev('crashed')
        return
    if r.flag in (1, 2):
        return
    m.ev('runs')
    # the set grows up to the size the options name
    if len(r.f) >= 3 * q:
        top = dict(linear=n + 1, diagonal=2 * n + 1, quadratic=q)[o['final_degree'].lower()]
        m.data.append((o['final_degree'].lower(), int(st['most'] >= top)))
    if st['models'] >= 3:
        m.nontrivial(p.desc(), o, r.nsimul)
        m.sample(dict(problem=p.desc(), options=o, models=st['models'], flag=r.flag))


def finalize(data, counts, tier):
    by = {}
    for idx, (deg, ok) in data:
        by.setdefault(deg, []).append(ok)
    out = []
    for deg, v in by.items():
        counts['full_size_' + deg] = sum(v)
        counts['long_runs_' + deg] = len(v)
        if len(v) >= 10 and sum(v) < .9 * len(v):
            out.append((None, 'set-never-full', '%s: the set reached its full size in %d of %d runs' % (deg, sum(v), len(v))))
    return out
