"""Strongly convex quadratic programs with known solution (active-set enumeration)."""
import itertools
import random
import numpy as np
import probgen
from probgen import Problem


def kkt(Q, b, A, c):
    """min .5xQx+bx s.t. A x = c -> x, y (Qx+b = A'y)"""
    n, k = len(b), len(c)
    K = np.zeros((n + k, n + k))
    K[:n, :n] = Q
    K[:n, n:] = -A.T
    K[n:, :n] = A
    try:
        z = np.linalg.solve(K, np.concatenate([-b, c]))
    except np.linalg.LinAlgError:
        return None, None
    return z[:n], z[n:]


def solve(Q, b, Ae, ce, Ai, ci, lb, ub):
    """min .5xQx+bx  s.t. Ae x = ce, Ai x >= ci, lb<=x<=ub; returns x, y_e, y_i (>=0), z (bound multipliers, g = Ae'ye+Ai'yi+z)"""
    n = len(b)
    mi = len(ci)
    best = None
    states = [[s for s in (0, -1, 1) if s == 0 or (s == -1 and np.isfinite(lb[i])) or (s == 1 and np.isfinite(ub[i]))] for i in range(n)]
    for act in itertools.product([0, 1], repeat=mi):
        for st in itertools.product(*states):
            rows, rhs = [], []
            for k in range(len(ce)):
                rows.append(Ae[k])
                rhs.append(ce[k])
            for k in range(mi):
                if act[k]:
                    rows.append(Ai[k])
                    rhs.append(ci[k])
            for i in range(n):
                if st[i]:
                    rows.append(np.eye(n)[i])
                    rhs.append(lb[i] if st[i] < 0 else ub[i])
            if len(rows) > n:
                continue
            A = np.array(rows).reshape(-1, n)
            x, y = kkt(Q, b, A, np.array(rhs))
            if x is None:
                continue
            t = 1e-9
            if np.any(x < lb - t) or np.any(x > ub + t) or (mi and np.any(Ai @ x < ci - t)) or (len(ce) and np.any(abs(Ae @ x - ce) > 1e-7)):
                continue
            ye = y[:len(ce)]
            k = len(ce)
            yi = np.zeros(mi)
            for j in range(mi):
                if act[j]:
                    yi[j] = y[k]
                    k += 1
            z = np.zeros(n)
            for i in range(n):
                if st[i]:
                    z[i] = y[k]
                    k += 1
            if np.any(yi < -t) or any((st[i] < 0 and z[i] < -t) or (st[i] > 0 and z[i] > t) for i in range(n)):
                continue
            v = .5 * x @ Q @ x + b @ x
            if best is None or v < best[0]:
                best = (v, x, ye, yi, z)
    return best


def gen(seed, kind):
    """kind: unc | box | eq | ineq | mixed"""
    r = random.Random('convex-%s-%s' % (kind, seed))
    while True:
        n = r.choice([1, 2, 3, 4]) if kind in ('box', 'mixed', 'ineq') else r.choice([1, 2, 3, 4, 5])
        if kind in ('eq', 'mixed') and n == 1:
            n = 2
        A = probgen._mat(r, n, n)
        Qo, _ = np.linalg.qr(A)
        Q = Qo @ np.diag([10 ** r.uniform(0, 1) for _ in range(n)]) @ Qo.T
        Q = .5 * (Q + Q.T)
        b = probgen._vec(r, n, 2)
        off = r.choice([0, 0, 5.0])
        me = {'eq': r.choice([1, 1, 2]), 'mixed': r.choice([0, 1])}.get(kind, 0)
        me = min(me, n - 1)
        mi = {'ineq': r.choice([1, 2]), 'mixed': r.choice([0, 1, 2])}.get(kind, 0)
        xf = probgen._vec(r, n)
        E = probgen._mat(r, me + mi, n)
        if me + mi:
            if me and np.linalg.cond(E[:me]) > 5:
                continue
            E = E / np.linalg.norm(E, axis=1, keepdims=True)
        d = E @ xf - np.array([0.0] * me + [r.choice([0.2, 0.5, 2.0]) for _ in range(mi)])
        lb, ub = np.full(n, -np.inf), np.full(n, np.inf)
        if kind in ('box', 'mixed'):
            for i in range(n):
                if r.random() < .8:
                    lb[i] = xf[i] - r.uniform(1.1, 3)
                if r.random() < .8:
                    ub[i] = xf[i] + r.uniform(1.1, 3)
        sol = solve(Q, b, E[:me], d[:me], E[me:], d[me:], lb, ub)
        if sol is None:
            continue
        fopt, xo, ye, yi, z = sol
        x0 = xf + probgen._vec(r, n, 2)
        break

    def f(x):
        x = np.array(x, float)
        return float(.5 * x @ Q @ x + b @ x + off)
    c = None
    if me + mi:
        def c(x):
            return E @ np.array(x, float) - d
    p = Problem(name='convex/%s' % kind, f=f, c=c, x0=x0, lb=lb, ub=ub, me=me, mi=mi)
    p.xopt, p.fopt, p.ye, p.yi, p.z = xo, fopt + off, ye, yi, z
    p.Q = Q
    p.kind = kind
    return p
