"""Monitor object: every oracle comparison goes through it and is counted."""
from __future__ import annotations

import hashlib
import json

import numpy as np


class HarnessError(Exception):
    """The harness (not the code under test) could not do its job."""


def jsonable(x, depth=0):
    if depth > 6:
        return str(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:20], depth + 1)}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)[:300]


class Monitor:
    def __init__(self, prop: str, scenario: dict):
        self.prop = prop
        self.scenario = scenario
        self.events: dict[str, int] = {}
        self.maxdev: dict[str, float] = {}
        self.cases: set[str] = set()
        self.ncases = 0
        self.samples: list = []
        self.violations: list[dict] = []
        self.context: dict = {}

    # ---- bookkeeping
    def case(self, key, nontrivial=True):
        """One execution of the code under test on one generated case."""
        self.ncases += 1
        s = json.dumps(jsonable(key), sort_keys=True)
        if nontrivial:
            self.cases.add(hashlib.sha1(s.encode()).hexdigest()[:16])
        if len(self.samples) < 2:
            self.samples.append(jsonable(key))
        self.context = {"case": jsonable(key)}

    def _ev(self, name):
        self.events[name] = self.events.get(name, 0) + 1

    def violate(self, name, /, **ctx):
        if len(self.violations) < 40:
            self.violations.append(
                {"monitor": name, "scenario": self.scenario, **jsonable(self.context), **jsonable(ctx)}
            )

    # ---- oracles
    def true(self, name, cond, /, **ctx):
        self._ev(name)
        if not bool(cond):
            self.violate(name, **ctx)
            return False
        return True

    def close(self, name, got, want, tol=1e-8, rtol=0.0, /, **ctx):
        """|got-want| <= tol + rtol*|want|, NaN/inf or a shape mismatch is a mismatch."""
        self._ev(name)
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object:
                g = g.astype(complex)
            if g.shape != w.shape:
                self.violate(name, why="shape", got_shape=g.shape, want_shape=w.shape, **ctx)
                return False
            if g.size == 0:
                return True
            d = np.abs(g - w)
            lim = tol + rtol * np.abs(w)
            bad = ~(d <= lim)
            dev = float(np.max(d)) if np.all(np.isfinite(d)) else float("inf")
        except (TypeError, ValueError) as e:
            self.violate(name, why=f"not comparable: {e}", got=str(got)[:200], want=str(want)[:200], **ctx)
            return False
        self.maxdev[name] = max(self.maxdev.get(name, 0.0), dev)
        if np.any(bad):
            i = np.unravel_index(int(np.argmax(np.where(bad, np.nan_to_num(d, nan=np.inf), -1))), g.shape) if g.shape else ()
            self.violate(name, maxdev=dev, at=[int(k) for k in i], got=g[i] if g.shape else g[()],
                         want=w[i] if w.shape else w[()], tol=tol, **ctx)
            return False
        return True

    def raises(self, name, exc, fn, /, **ctx):
        self._ev(name)
        try:
            fn()
        except exc:
            return True
        self.violate(name, why="expected an exception", **ctx)
        return False

    def result(self):
        return {
            "events": self.events,
            "maxdev": self.maxdev,
            "cases": sorted(self.cases),
            "ncases": self.ncases,
            "samples": self.samples,
            "violations": self.violations,
        }
