"""Verdict discipline: three-valued outcomes, counters, replayable cases."""

from __future__ import annotations

import json
import os
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The oracle saw an execution that breaks the property."""

    def __init__(self, key, msg="", **data):
        super().__init__(f"[{key}] {msg}")
        self.key = key
        self.msg = msg
        self.data = data


class HarnessError(Exception):
    """The machinery itself cannot decide this case (never a verdict)."""

    foreign = False


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Budget(Exception):
    """Logical-step cap exceeded inside the code under test."""


class Planned(Exception):
    """A fault this harness injects on purpose."""


class CaseTimeout(BaseException):
    """Wall-clock watchdog of one case."""


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 60 else {"shape": list(x.shape), "head": x.ravel()[:20].tolist()}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def case_rng(seed, prop, kind, idx):
    return np.random.default_rng([int(seed), zlib.crc32(prop.encode()), zlib.crc32(kind.encode()), int(idx)])


class Mon:
    """Monitor of one case: counts what it observed, raises on a violation."""

    def __init__(self):
        self.counters = {}
        self.sigs = set()
        self.sample = None
        self.info = {}
        self.max_err = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def distinct(self, *key):
        """Record the signature of a distinct non-trivial observation."""
        self.sigs.add(json.dumps(jsonable(key), sort_keys=True))

    def note(self, **kw):
        self.info.update(kw)

    def require(self, cond, key, msg, **data):
        self.count("checks")
        self.count("check:" + key)
        if not bool(cond):
            raise Violation(key, msg, **data)

    def close(self, got, want, key, msg, rtol=1e-9, atol=1e-11, scale=None, **data):
        """Numeric agreement; non-finite values never agree silently."""
        self.count("checks")
        self.count("check:" + key)
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape and g.size == w.size:
            g = g.reshape(w.shape)
        if g.shape != w.shape:
            raise Violation(key, msg + f": shape {g.shape} instead of {w.shape}", **data)
        if g.size == 0:
            return
        s = scale if scale is not None else max(float(np.max(np.abs(w))), 0.0)
        if not np.all(np.isfinite(w)):
            raise HarnessError(f"reference not finite in {key}")
        err = np.abs(g - w)
        bad = ~np.isfinite(err) | (err > atol + rtol * s)
        m = float(np.max(err)) if np.all(np.isfinite(err)) else float("inf")
        lim = atol + rtol * s
        rel = m / lim if lim > 0 else (0.0 if m == 0 else float("inf"))
        self.max_err[key] = max(self.max_err.get(key, 0.0), rel)
        if np.any(bad):
            raise Violation(key, msg + f": max deviation {m:.3e} (scale {s:.3e})", got=g, want=w, **data)
