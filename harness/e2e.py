"""Shared pieces of the end-to-end monitors."""
import numpy as np
import probgen
import runner

FLAGS = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 20, 21, 22, 30}


def seeds(tier, seed, quick, thorough, tag=0):
    n = quick if tier == 'quick' else thorough
    return [seed * 1000003 + tag * 7919 + i for i in range(n)]


def viol_bounds(p, x):
    x = np.asarray(x, float).ravel()
    return float(max(0.0, np.max(np.maximum(p.lb - x, x - p.ub))))


def feas_viol(p, c):
    c = np.asarray(c, float).ravel()
    v = 0.0
    if p.me:
        v = max(v, np.max(np.abs(c[:p.me])))
    if p.mi:
        v = max(v, np.max(-c[p.me:]))
    return float(v)


def grad(fun, x, h=1e-6):
    n = len(x)
    out = []
    for e in np.eye(n):
        d = h * max(1.0, abs(float(x @ e)))
        out.append((np.atleast_1d(fun(x + d * e)) - np.atleast_1d(fun(x - d * e))) / (2 * d))
    return np.array(out)          # n x m


def crash(m, rec, what='crash'):
    key = '%s:%s' % (what, runner.errkey(rec))
    m.bad(key, rec.err[-900:])


def find_eval(rec, x):
    t = tuple(float(v) for v in np.asarray(x, float).ravel())
    return [i for i, (xt, v) in enumerate(rec.f) if xt == t]
