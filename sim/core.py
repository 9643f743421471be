"""Core of the simulator: run context, violations, seeds, event log.

One integer decides a run.  ``derive(seed, prop, index)`` gives the seed of a
run, the property module turns it into a *plan* (plain JSON: knobs plus a list
of operations, each carrying its own sub-seed), and executing a plan is a pure
function of the plan and of the code under test.
"""

import hashlib
import json
import os
import random
import sys
import traceback

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "optbinning") + os.sep


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, cls, msg, key=None):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg
        self.key = key or cls


class HarnessError(Exception):
    """The simulator itself failed (never reported as a violation)."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class Injected(Exception):
    """Marker base for injected failures."""


class InjectedError(Injected, RuntimeError):
    """An injected recoverable failure."""


class InjectedCancel(KeyboardInterrupt):
    """Cancellation delivered by the simulator."""


class InjectedMemoryError(MemoryError):
    """An allocation failure delivered by the simulator."""


class InjectedOSError(OSError):
    """An I/O failure delivered by the simulator."""


INJECTED = (Injected, InjectedCancel, InjectedMemoryError, InjectedOSError,
            SimCrash)


def derive(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def nprng(*parts):
    return np.random.Generator(np.random.PCG64(derive(*parts)))


def pyrng(*parts):
    return random.Random(derive(*parts))


def _plain(v):
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.ndarray):
        return digest(v)
    if isinstance(v, (list, tuple)):
        return [_plain(a) for a in v]
    if isinstance(v, dict):
        return {str(k): _plain(a) for k, a in v.items()}
    return repr(v)


def digest(v):
    """Short stable digest of arrays, frames and nested plain values."""
    h = hashlib.sha256()
    _feed(h, v)
    return h.hexdigest()[:16]


def _feed(h, v):
    import pandas as pd
    if isinstance(v, np.ndarray):
        h.update(("nd%s%s" % (v.dtype, v.shape)).encode())
        if v.dtype == object:
            for a in v.ravel():
                _feed(h, a)
        else:
            h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, pd.DataFrame):
        h.update(repr(list(v.columns)).encode())
        for c in range(v.shape[1]):
            _feed(h, np.asarray(v.iloc[:, c]))
    elif isinstance(v, pd.Series):
        _feed(h, np.asarray(v))
    elif isinstance(v, dict):
        h.update(b"{")
        for k in v:
            _feed(h, k)
            _feed(h, v[k])
    elif isinstance(v, (list, tuple)):
        h.update(b"[")
        for a in v:
            _feed(h, a)
        h.update(b"]")
    elif isinstance(v, (float, np.floating)):
        h.update(("f%r" % float(v)).encode())
    elif isinstance(v, (bool, np.bool_)):
        h.update(("b%r" % bool(v)).encode())
    elif isinstance(v, (int, np.integer)):
        h.update(("i%d" % int(v)).encode())
    else:
        h.update(repr(v).encode())


class Ctx:
    """Everything one simulated run records."""

    def __init__(self, prop, seed, scratch=None, keep_events=False):
        self.prop = prop
        self.seed = seed
        self.scratch = scratch
        self.faults = {}
        self.probes = {}
        self.evals = 0
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = False
        self._h = hashlib.sha256()
        self.n_events = 0
        self.events = [] if keep_events else None
        self.state_digests = set()

    # -- recording ---------------------------------------------------------
    def event(self, *parts):
        self.n_events += 1
        s = json.dumps(_plain(list(parts)), sort_keys=True)
        self._h.update(s.encode())
        if self.events is not None:
            self.events.append(s)

    def trace_hash(self):
        return self._h.hexdigest()[:16]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, d):
        self.state_digests.add(d)

    def tick(self, dt=1.0):
        self.sim_time += dt

    # -- checking ----------------------------------------------------------
    def check(self, ok, cls, msg, key=None):
        self.evals += 1
        if not ok:
            if callable(msg):
                msg = msg()
            raise Violation(cls, msg, key)

    def must(self, label, fn, *a, **k):
        """Call that has to succeed: any exception breaks the property."""
        self.evals += 1
        try:
            return fn(*a, **k)
        except (Violation, HarnessError):
            raise
        except INJECTED:
            raise
        except Exception as e:
            raise Violation("unexpected-exception",
                            "%s raised %s: %s" % (label, type(e).__name__,
                                                  str(e)[:300]),
                            key="unexpected-exception:%s:%s" % (
                                label, type(e).__name__)) from e


def from_repo(exc):
    """True if the exception was raised below a frame of the code under
    test."""
    tb = exc.__traceback__
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(PKG):
            return True
    return False


def innermost_frames(exc, n=6):
    out = []
    for fr in traceback.extract_tb(exc.__traceback__)[-n:]:
        out.append("%s:%d %s" % (fr.filename, fr.lineno, fr.name))
    return out


def feq(a, b, rtol=1e-9, atol=1e-9):
    """Equality of two floats or arrays, NaN equal to NaN."""
    try:
        return bool(np.allclose(np.asarray(a, dtype=float),
                                np.asarray(b, dtype=float),
                                rtol=rtol, atol=atol, equal_nan=True))
    except (TypeError, ValueError):
        return False


def same(a, b):
    """Exact equality of arrays / frames / scalars (NaN equal to NaN)."""
    import pandas as pd
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        if not (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame)):
            return False
        if list(a.columns) != list(b.columns) or a.shape != b.shape:
            return False
        return all(same(a.iloc[:, i].to_numpy(), b.iloc[:, i].to_numpy())
                   for i in range(a.shape[1]))
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype != object and b.dtype != object:
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            try:
                return bool(np.array_equal(a, b, equal_nan=True))
            except TypeError:
                return False
        return bool(np.array_equal(a, b))
    for x, y in zip(a.ravel(), b.ravel()):
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not same(x, y):
                return False
            continue
        if x is y:
            continue
        try:
            if x == y:
                continue
        except Exception:
            return False
        try:
            if x != x and y != y:
                continue
        except Exception:
            pass
        return False
    return True


def close(a, b, rtol=1e-9, atol=1e-9):
    """Like ``same`` with a float tolerance."""
    import pandas as pd
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        if not (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame)):
            return False
        if list(map(str, a.columns)) != list(map(str, b.columns)) \
                or a.shape != b.shape:
            return False
        return all(close(a.iloc[:, i].to_numpy(), b.iloc[:, i].to_numpy(),
                         rtol, atol) for i in range(a.shape[1]))
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
        return feq(a, b, rtol, atol)
    for x, y in zip(a.ravel(), b.ravel()):
        if isinstance(x, (float, int, np.number)) and \
                isinstance(y, (float, int, np.number)):
            if not feq(x, y, rtol, atol):
                return False
        elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not close(x, y, rtol, atol):
                return False
        elif not same(np.array([x], dtype=object),
                      np.array([y], dtype=object)):
            return False
    return True
