"""Run the real optimizer with recording user functions."""
import contextlib
import io
import traceback
import types
import numpy as np


class Opt:
    pass


def mkopt(d):
    o = Opt()
    for k, v in d.items():
        setattr(o, k, v)
    return o


class Injected(Exception):
    pass


class Rec:
    pass


def col(v):
    return np.asarray(v, float).reshape(-1, 1).copy()


def run(p, opts, fault=None, x0=None, raw=None, wrapcall=None, quiet=True):
    """fault: (where 'f'|'c', k, kind) -> k-th (0-based) call of that function misbehaves.
    raw: optional dict overriding the raw arguments given to optimize()."""
    from sqpdfo import optimize
    rec = Rec()
    fl = rec.f = []          # (tuple x, value)
    cl = rec.c = []
    order = rec.order = []   # 'f'/'c' sequence
    rec.fault_hit = None

    def inj(which, k, val):
        if fault is not None and fault[0] == which and fault[1] == k:
            rec.fault_hit = len(order)
            kind = fault[2]
            if kind == 'exc':
                raise Injected('injected')
            if kind == 'zerodiv':
                return 1 / 0
            if kind == 'none':
                return None
            if kind == 'str':
                return 'failed'
            if kind == 'vec':
                return [1.0, 2.0]
            if kind in ('more', 'fewer'):
                val = np.array(val, float).ravel()
                return np.append(val, val[-1]) if kind == 'more' else val[:-1]
            bad = {'nan': float('nan'), 'inf': float('inf'), '-inf': float('-inf')}[kind]
            if which == 'f':
                return bad
            val = np.array(val, float)
            val[fault[3] % len(val)] = bad
        return val

    def ff(x):
        k = len(fl)
        xt = tuple(float(t) for t in x)
        order.append('f')
        fl.append([xt, None])
        v = p.f(x)
        v = inj('f', k, v)
        fl[-1][1] = v
        return v

    def fc(x):
        k = len(cl)
        xt = tuple(float(t) for t in x)
        order.append('c')
        cl.append([xt, None])
        v = p.c(x)
        v = inj('c', k, v)
        if not (v is None or isinstance(v, str)):
            cl[-1][1] = np.array(v, float).ravel()
        return v

    gf, gc = (ff, fc) if wrapcall is None else (wrapcall(ff), wrapcall(fc))
    a = dict(options_=mkopt(opts) if opts is not None else None, func_f=gf,
             x0=col(p.x0 if x0 is None else x0), lb=col(p.lb), ub=col(p.ub),
             me=p.me, mi=p.mi, func_c=gc if p.c is not None else None)
    if p.li is not None:
        a['li'] = p.li
        a['ui'] = p.ui
    if raw:
        a.update(raw)
    rec.args = a
    buf = io.StringIO()
    rec.err = None
    rec.exc = None
    rec.x = rec.lm = rec.info = None
    try:
        # (redirection is process-wide: threads are started under the redirection of their parent)
        with (contextlib.redirect_stdout(buf) if quiet else contextlib.nullcontext()):
            rec.x, rec.lm, rec.info = optimize(**a)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        rec.exc = e
        rec.err = traceback.format_exc()
    rec.out = buf.getvalue()
    if rec.err is None:
        rec.xv = np.asarray(rec.x, float).ravel()
        rec.flag = rec.info.flag
        rec.ce = np.asarray(getattr(rec.info, 'ce', []), float).ravel()
        rec.nsimul = rec.info.nsimul[1] if len(np.atleast_1d(getattr(rec.info, 'nsimul', []))) > 1 else None
        rec.niter = getattr(rec.info, 'niter', None)
    return rec


def sig(rec):
    """Everything observable about a run, for bitwise comparison."""
    def b(a):
        return np.asarray(a, float).tobytes()
    s = [rec.err is not None, type(rec.exc).__name__,
         [(t, b(v) if v is not None else None) for t, v in rec.f],
         [(t, b(v) if v is not None else None) for t, v in rec.c]]
    if rec.err is None:
        i = rec.info
        s += [b(rec.x), b(rec.lm), i.flag, b(i.f), b(i.ce), rec.nsimul, rec.niter]
    return s


def errkey(rec):
    """mechanism key of a crash: exception type + innermost sqpdfo frame function."""
    tb = traceback.extract_tb(rec.exc.__traceback__)
    fr = [t for t in tb if '/sqpdfo/' in t.filename]
    last = fr[-1] if fr else tb[-1]
    return '%s@%s:%s' % (type(rec.exc).__name__, last.filename.split('/')[-1], last.name)
