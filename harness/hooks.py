"""Instrument functions of the package at run time: every module attribute of sqpdfo.* that is
the function object is replaced by a wrapper reporting (args, kwargs, result) to a callback.
Nothing is written to disk and nothing is changed when no hook is installed."""
import importlib
import sys


class Hook:
    def __init__(self):
        self.saved = []
        self.depth = 0
        self.errors = []        # exceptions raised by callbacks (never passed on to the run)

    def wrap(self, module, name, after=None, before=None):
        """returns True if the function exists"""
        try:
            mod = importlib.import_module('sqpdfo.' + module)
            fun = getattr(mod, name)
        except (ImportError, AttributeError):
            return False
        hook = self

        def wrapper(*a, **k):
            if hook.depth:
                return fun(*a, **k)
            tok = None
            if before is not None:
                hook.depth += 1
                try:
                    tok = before(a, k)
                except Exception as e:
                    hook.errors.append(e)
                finally:
                    hook.depth -= 1
            r = fun(*a, **k)
            if after is not None:
                hook.depth += 1
                try:
                    after(a, k, r, tok)
                except Exception as e:
                    hook.errors.append(e)
                finally:
                    hook.depth -= 1
            return r
        wrapper.__wrapped_by_verif__ = fun
        n = 0
        for mn, m in list(sys.modules.items()):
            if m is None or not (mn == 'sqpdfo' or mn.startswith('sqpdfo.')):
                continue
            for an, av in list(vars(m).items()):
                if av is fun:
                    self.saved.append((m, an, fun))
                    setattr(m, an, wrapper)
                    n += 1
        return n > 0

    def point(self, module, name, call):
        """call() before every call of the function, in any thread and at any depth"""
        try:
            fun = getattr(importlib.import_module('sqpdfo.' + module), name)
        except (ImportError, AttributeError):
            return False

        def wrapper(*a, **k):
            call()
            return fun(*a, **k)
        for mn, m in list(sys.modules.items()):
            if m is None or not (mn == 'sqpdfo' or mn.startswith('sqpdfo.')):
                continue
            for an, av in list(vars(m).items()):
                if av is fun:
                    self.saved.append((m, an, fun))
                    setattr(m, an, wrapper)
        return True

    def remove(self):
        for m, an, fun in reversed(self.saved):
            setattr(m, an, fun)
        self.saved = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.remove()
        return False


def bind(fun_args, names, a, k):
    """positional/keyword args -> dict by names (in order)"""
    d = dict(zip(names, a))
    for n in names:
        if n in k:
            d[n] = k[n]
    return d
