"""Model derivatives are the derivatives of the model; the factorization describes the set it was built from."""
import random
import numpy as np
import polyref

RULE = ('case = random polynomial (n 1-7, any admissible length from constant+linear to full quadratic, several right-hand sides), with and without '
        'shift, evaluated/differentiated at points up to 1e3 away; compared with an independent evaluator and with differences along random '
        'directions; the projected gradient against its definition; non-trivial = every case; distinct by (n, length, shift, seed)')
ASSUMPTIONS = ['basis order as documented in the polynomial evaluation routine']
MIN = {'polynomials': 400, 'projected_gradients': 200, 'design_matrices': 200}


def cases(tier, seed):
    n = 3000 if tier == 'quick' else 40000
    return [dict(s=seed * 1000003 + i) for i in range(n)]


def run_case(case, m):
    from sqpdfo.bcdfo_evalP import bcdfo_evalP_ as eP
    from sqpdfo.bcdfo_evalZ import bcdfo_evalZ_ as eZ
    from sqpdfo.bcdfo_gradP import bcdfo_gradP_ as gP
    from sqpdfo.bcdfo_hessP import bcdfo_hessP_ as hP
    from sqpdfo.bcdfo_projgrad import bcdfo_projgrad_ as pg
    r = random.Random('C15-%s' % case['s'])
    G = lambda: r.gauss(0, 1)
    n = r.choice([1, 2, 3, 3, 4, 5, 7])
    q = polyref.nq(n)
    L = r.choice([n + 1, q, q, min(q, 2 * n + 1), r.randint(n + 1, q)])
    sh = r.choice([0, 1, 1])
    P = np.array([[G() for _ in range(L)]])
    s = 10.0 ** r.uniform(-3, 3)
    scale = np.ones((L, 1))
    xb = np.zeros((n, 1))
    if sh:
        scale[1:n + 1] = 1 / s
        scale[n + 1:] = 1 / s ** 2
        xb = np.array([[G() * 10] for _ in range(n)])
    x = xb + (s if sh else 1.0) * np.array([[G()] for _ in range(n)]) * r.choice([1, 1, 10])
    z = ((x - xb) / s if sh else x).ravel()
    ss = s if sh else 1.0
    ref = polyref.evalp(P, z)
    sc = np.sum(np.abs(P)) * (1 + z @ z) + 1e-300
    m.ev('polynomials')
    m.ev('length_%s' % ('full' if L == q else 'linear' if L == n + 1 else 'partial'))
    P0, x0 = P.copy(), x.copy()
    v = float(np.ravel(eP(P, x, xb, scale, sh))[0])
    m.check(abs(v - ref) <= 1e-11 * sc, 'value', lambda: '%r != %r n=%d L=%d' % (v, ref, n, L))
    g, H = polyref.grad_hess(P, z, n)
    gg = np.asarray(gP(P, x, xb, scale, sh))
    HH = np.asarray(hP(P, x, xb, scale, sh))
    m.check(gg.shape == (n, 1) and np.max(np.abs(gg.ravel() * ss - g)) <= 1e-11 * sc, 'gradient', lambda: '%r != %r n=%d L=%d' % ((gg.ravel() * ss).tolist(), g.tolist(), n, L))
    m.check(HH.shape == (n, n) and np.max(np.abs(HH * ss ** 2 - H)) <= 1e-11 * sc, 'hessian', lambda: '%r != %r n=%d L=%d' % ((HH * ss ** 2).tolist(), H.tolist(), n, L))
    m.check(np.max(np.abs(HH - HH.T)) * ss ** 2 <= 1e-12 * sc, 'hessian-symmetry', '')
    d = np.array([[G()] for _ in range(n)]) * ss
    a = float(np.ravel(eP(P, x + d, xb, scale, sh))[0])
    b = float(np.ravel(eP(P, x - d, xb, scale, sh))[0])
    sd = sc * (1 + float(d.T @ d) / ss ** 2) * 4
    m.check(abs((a - b) / 2 - float(gg.ravel() @ d.ravel())) <= 1e-10 * sd, 'gradient-vs-differences', '')
    m.check(abs((a + b - 2 * v) - float(d.T @ HH @ d)) <= 1e-10 * sd, 'hessian-vs-differences', '')
    m.check(np.array_equal(P, P0) and np.array_equal(x, x0), 'arguments-modified', '')
    # multi-row evaluation
    PP = np.array([[G() for _ in range(L)] for _ in range(3)])
    vv = np.ravel(eP(PP, x, xb, scale, sh))
    m.check(len(vv) == 3 and all(abs(vv[k] - polyref.evalp(PP[k], z)) <= 1e-11 * np.sum(np.abs(PP[k])) * (1 + z @ z) for k in range(3)), 'value-rows', '')
    # design matrix
    mcols = r.choice([1, 2, 5])
    X = np.array([[G() for _ in range(mcols)] for _ in range(n)])
    Z = np.asarray(eZ(X.copy(), L))
    m.ev('design_matrices')
    m.check(Z.shape == (L, mcols) and np.max(np.abs(Z - polyref.design(X, L).T)) <= 1e-13 * (1 + np.max(np.abs(X)) ** 2), 'design-matrix', lambda: 'n=%d L=%d' % (n, L))
    # projected gradient
    lb = np.array([[r.choice([-np.inf, G() - 1.5, G() - 1.5])] for _ in range(n)])
    ub = np.array([[r.choice([np.inf, 2.0, 3.0])] for _ in range(n)])
    lb = np.minimum(lb, 1.0)
    xx = np.array([[min(max(G(), lb[i, 0]), ub[i, 0])] for i in range(n)])
    for i in range(n):
        t = r.random()
        if t < .2 and np.isfinite(lb[i, 0]):
            xx[i, 0] = lb[i, 0]
        elif t < .4 and np.isfinite(ub[i, 0]):
            xx[i, 0] = ub[i, 0]
    gr = np.array([[G() * 10 ** r.choice([-2, 0, 1])] for _ in range(n)])
    nrm, pgv = pg(n, xx.copy(), gr.copy(), lb.copy(), ub.copy())
    want = np.minimum(np.maximum(xx - gr, lb), ub) - xx
    m.ev('projected_gradients')
    m.check(abs(float(np.ravel(nrm)[0]) - np.max(np.abs(want))) <= 1e-13 * (1 + np.max(np.abs(want))), 'projected-gradient-norm', lambda: '%r want %r' % (nrm, want.ravel().tolist()))
    m.check(np.max(np.abs(np.abs(np.ravel(pgv)) - np.abs(want.ravel()))) <= 1e-13 * (1 + np.max(np.abs(want))), 'projected-gradient', lambda: '%r want %r' % (np.ravel(pgv).tolist(), want.ravel().tolist()))
    m.nontrivial(n, L, sh, case['s'])
    m.sample(dict(n=n, length=L, shift=sh, value=v))
