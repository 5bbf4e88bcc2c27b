"""Per-case monitor object: counts events, records violations / samples."""
import hashlib
import json
import numpy as np


def js(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (bytes,)):
        return o.hex()
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


class Mon:
    def __init__(self, case):
        self.case = case
        self.counts = {}
        self.viol = []          # (key, msg)
        self.keys = []          # distinct, non-trivial behaviour keys
        self.samples = []
        self.data = []          # for finalize()

    def ev(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + int(n)

    def bad(self, key, msg=''):
        """oracle refuted; key = mechanism (never random values)"""
        if len(self.viol) < 20:
            self.viol.append([key, str(msg)[:1500]])

    def check(self, cond, key, msg=''):
        self.ev('assert:' + key.split('@')[0])
        if not cond:
            self.bad(key, msg() if callable(msg) else msg)
        return bool(cond)

    def nontrivial(self, *key):
        h = hashlib.sha1(json.dumps(key, default=js, sort_keys=True).encode()).hexdigest()[:16]
        self.keys.append(h)

    def sample(self, o):
        if len(self.samples) < 1:
            self.samples.append(o)

    def out(self):
        return dict(counts=self.counts, viol=self.viol, keys=self.keys,
                    samples=self.samples, data=self.data)
