"""Problem generators.  A problem is fully determined by (family, seed)."""
import random
import numpy as np


class Problem:
    """f, c: plain python functions of a sequence; lb/ub/x0: 1-D arrays."""
    name = ''
    convex = False          # convex objective, linear constraints, known optimum
    fopt = None
    xopt = None
    smooth_bound = None     # (unused unless set) bound on curvature near the region

    def __init__(self, **kw):
        self.me = 0
        self.mi = 0
        self.c = None
        self.li = None
        self.ui = None
        for k, v in kw.items():
            setattr(self, k, v)
        self.n = len(self.x0)
        self.nb = int(np.sum((self.lb > -1e19) | (self.ub < 1e19)))

    def desc(self):
        return dict(name=self.name, n=self.n, me=self.me, mi=self.mi,
                    nb=self.nb)


def _vec(r, n, s=1.0):
    return np.array([r.gauss(0, s) for _ in range(n)])


def _mat(r, a, b):
    return np.array([[r.gauss(0, 1) for _ in range(b)] for _ in range(a)]).reshape(a, b)


def general(seed, nmax=6, allow_con=True, kinds=None, bounds=None):
    """Random smooth problem; bounded below; all constraint systems feasible at xf."""
    r = random.Random('general-%s' % (seed,))
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
    n = min(n, nmax)
    A = _mat(r, n, n)
    Q = A.T @ A + r.choice([0, 0.1, 1]) * np.eye(n)
    kind = r.choice(kinds or ['quad', 'quad', 'rosen', 'quartic', 'trig', 'indef', 'sqdist'])
    if kind == 'indef':
        Q = Q - r.choice([0.5, 1.0, 3.0]) * np.eye(n)
    b = _vec(r, n)
    sc = r.choice([1, 1, 1, 100, 0.01])
    off = r.choice([0, 0, 0, 10.0, -50.0])
    xs = _vec(r, n, 1.5)

    def f(x):
        x = np.array(x, float)
        if kind == 'quad':
            v = .5 * x @ Q @ x + b @ x
        elif kind == 'rosen':
            v = sum(100 * (x[i+1]-x[i]**2)**2 + (1-x[i])**2 for i in range(n-1)) + (1-x[0])**2
        elif kind == 'quartic':
            v = .5 * x @ Q @ x + b @ x + 0.1*np.sum((x-1)**4)
        elif kind == 'trig':
            v = .5 * x @ Q @ x + b @ x + np.sum(np.sin(2*x))
        elif kind == 'indef':
            v = .5 * x @ Q @ x + b @ x + 0.05*np.sum(x**4)
        else:
            v = np.sum((x-xs)**2)
        return float(sc*v + off)

    xf = _vec(r, n)
    me = mi = 0
    cc = 'none'
    c = None
    if allow_con and r.random() < 0.7:
        me = min(r.choice([0, 1, 1, 2]), max(0, n-1))
        mi = r.choice([0, 0, 1, 2, 3])
        cc = r.choice(['lin', 'nl'])
        E = _mat(r, me+mi, n)
        slackv = np.array([0.0]*me + [r.choice([0.0, 0.5, 2.0]) for _ in range(mi)])
        csc = r.choice([1, 1, 1, 20, 0.1])
        if me+mi:
            def c(x):
                x = np.array(x, float)
                v = E @ (x-xf) + slackv
                if cc == 'nl':
                    v = v + 0.1*(np.sum(x**2)-np.sum(xf**2))
                return csc*v
    lb = np.full(n, -np.inf)
    ub = np.full(n, np.inf)
    bk = r.choice(bounds or ['none', 'none', 'box', 'some', 'tight', 'big', 'lower'])
    for i in range(n):
        if bk == 'box' or (bk == 'some' and r.random() < .5):
            lb[i] = xf[i]-r.random()*3-0.01
        if bk == 'box' or (bk == 'some' and r.random() < .5):
            ub[i] = xf[i]+r.random()*3+0.01
        if bk == 'tight':
            lb[i] = xf[i]-r.random()-0.01
            ub[i] = xf[i]+r.random()+0.01
        if bk == 'big':
            lb[i], ub[i] = -1e20, 1e20
        if bk == 'lower':
            lb[i] = xf[i]-r.random()
    x0 = _vec(r, n, 2)
    p = Problem(name='%s/%s/%s/sc%g' % (kind, cc, bk, sc), f=f, c=c, x0=x0, lb=lb, ub=ub,
                me=me, mi=mi)
    p.kind = kind
    p.cc = cc
    p.bk = bk
    p.sc = sc
    p.xf = xf
    return p


HESS = ['model', 'bfgs']
MODELS = ['Subbasis', 'Frobnorm', 'L2norm', 'Regression']
DEGREES = ['linear', 'diagonal', 'quadratic']


def rand_options(seed, **force):
    r = random.Random('opt-%s' % (seed,))
    o = dict(hess_approx=r.choice(HESS), whichmodel=r.choice(MODELS + ['Subbasis']),
             final_degree=r.choice(DEGREES), msimul=400, miter=400, verbose=0)
    o['tol_grad'] = r.choice([1e-5, 1e-5, 1e-4, 1e-3])
    o['tol_feas'] = r.choice([1e-5, 1e-5, 1e-4])
    o['tol_bnds'] = 1e-5
    o.update(force)
    return o


def hostile(seed):
    """Awkward but well-formed problems: nonsmooth, constant, linear, noisy, infeasible,
    redundant constraints, extreme starting points, narrow boxes, one-sided bounds."""
    r = random.Random('hostile-%s' % (seed,))
    n = r.choice([1, 1, 2, 2, 3, 4, 5])
    kind = r.choice(['abs', 'max', 'step', 'const', 'linear', 'noisy', 'quadflat', 'concave', 'illcond', 'bigoff', 'exp'])
    a = _vec(r, n)
    xs = _vec(r, n, 1.5)
    d = np.array([10.0 ** r.uniform(-3, 3) for _ in range(n)])

    def f(x):
        x = np.array(x, float)
        if kind == 'abs':
            return float(np.sum(np.abs(x - xs)))
        if kind == 'max':
            return float(np.max(np.abs(x - xs)) + 0.1 * np.sum(x))
        if kind == 'step':
            return float(np.sum(np.floor(2 * np.abs(x - xs))))
        if kind == 'const':
            return 3.25
        if kind == 'linear':
            return float(a @ x)
        if kind == 'noisy':
            return float(np.sum((x - xs) ** 2) + 1e-3 * np.sin(1e5 * np.sum(x)))
        if kind == 'quadflat':
            return float(a @ x) ** 2
        if kind == 'concave':
            return float(-np.sum((x - xs) ** 2))
        if kind == 'illcond':
            return float(np.sum(d * (x - xs) ** 2))
        if kind == 'bigoff':
            return float(1e8 + np.sum((x - xs) ** 2))
        return float(np.sum(np.exp(np.clip(np.abs(x - xs), 0, 20))))

    me = min(r.choice([0, 0, 0, 1, 1, 2]), n)
    mi = r.choice([0, 0, 0, 1, 2, 4])
    cc = r.choice(['lin', 'dup', 'infeas', 'circle', 'const', 'nonsmooth', 'big'])
    E = _mat(r, me + mi, n)
    xf = _vec(r, n)
    if cc == 'dup' and me + mi > 1:
        E[1:] = E[0]
    c = None
    if me + mi:
        def c(x):
            x = np.array(x, float)
            if cc == 'circle':
                return np.array([1.0 + i - np.sum((x - xf) ** 2) for i in range(me + mi)])
            if cc == 'const':
                return np.array([0.5 * i for i in range(me + mi)])
            if cc == 'nonsmooth':
                return np.abs(E @ (x - xf))
            v = E @ (x - xf)
            if cc == 'infeas':
                v = np.abs(v) + 0.3 if me else -v ** 2 - 0.3
            if cc == 'big':
                v = 1e4 * v
            return v
    lb = np.full(n, -np.inf)
    ub = np.full(n, np.inf)
    bk = r.choice(['none', 'none', 'box', 'narrow', 'onesided', 'mixed', 'zero'])
    for i in range(n):
        if bk == 'box':
            lb[i], ub[i] = xf[i] - 1.5, xf[i] + 2.5
        if bk == 'narrow':
            w = 10.0 ** r.uniform(-3, 0)
            lb[i], ub[i] = xf[i] - w, xf[i] + w
        if bk == 'onesided':
            if r.random() < .5:
                lb[i] = xf[i] - 1
            else:
                ub[i] = xf[i] + 1
        if bk == 'mixed':
            t = r.random()
            if t < .3:
                lb[i] = xf[i]
            elif t < .6:
                lb[i], ub[i] = xf[i] - 1, xf[i] + 1
        if bk == 'zero':
            lb[i] = 0.0
    x0 = _vec(r, n, r.choice([0, 1, 1, 10, 100]))
    p = Problem(name='H:%s/%s/%s' % (kind, cc if c else '-', bk), f=f, c=c, x0=x0, lb=lb, ub=ub, me=me, mi=mi)
    p.kind, p.cc, p.bk = kind, cc, bk
    return p
