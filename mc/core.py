"""Recording, known findings, replays and evidence for the bounded exhaustive checks.

A check enumerates a finite space completely.  Vocabulary of the evidence:

* state       a distinct configuration of the explored space (arguments, operation
              history or environment answers), counted by hashing its description;
* transition  one call of the real code (every call is counted, repeats included);
* validated   one observation of the real code compared with the reference model;
* outcomes    distinct observed results (hashes of the returned values), printed so
              that a vacuous exploration is visible.
"""
import hashlib
import json
import os
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _plain(x):
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return _plain(x.tolist())
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return float(x)
    if x is None or isinstance(x, str):
        return x
    return repr(x)


def dump(x):
    return json.dumps(_plain(x), sort_keys=True)


def h64(x):
    if isinstance(x, str):
        x = x.encode()
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "big")


class Recorder:
    """Collects what one worker explored."""

    MAXV = 40

    def __init__(self, progress=None, only=None):
        self.states = set()
        self.outcomes = set()
        self.calls = 0
        self.valid = 0
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.findings = {}
        self.skipped = 0
        self.counters = {}
        self.progress = progress
        self.only = only
        self.shard = None
        self._key = None

    # -- exploring -------------------------------------------------------
    def state(self, key):
        """Registers a state; returns its description."""
        s = key if isinstance(key, str) else dump(key)
        self.states.add(h64(s))
        self._key = s
        if self.progress is not None:
            self.progress(s)
        if len(self.samples) < 4:
            self.samples.append(s)
        return s

    def wanted(self, key):
        return self.only is None or dump(key) == self.only

    def call(self, fn, *a, **k):
        self.calls += 1
        return fn(*a, **k)

    def outcome(self, *vals):
        b = b""
        for v in vals:
            a = np.asarray(v)
            b += str(a.shape).encode() + (repr(a.tolist()).encode() if a.dtype == object
                                          else np.ascontiguousarray(a).tobytes())
        self.outcomes.add(h64(b))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    # -- judging ---------------------------------------------------------
    def check(self, cond, key, what, **detail):
        """One comparison with the reference."""
        self.valid += 1
        if cond:
            return True
        self.fail(key, what, **detail)
        return False

    def fail(self, key, what, **detail):
        self.nviol += 1
        if len(self.violations) < self.MAXV:
            self.violations.append({"key": _plain(key), "what": what,
                                    "detail": _plain(detail), "shard": self.shard})

    def finding(self, ident, what):
        """A failure that may be listed in KNOWN_FINDINGS.json under ident."""
        self.valid += 1
        if ident not in self.findings:
            self.findings[ident] = {"what": what, "shard": self.shard, "key": self._key}

    class _Case:
        def __init__(self, rec, key):
            self.rec, self.key = rec, key

        def __enter__(self):
            self.rec.state(self.key)
            return self.rec

        def __exit__(self, et, ev, tb):
            if et is None:
                return False
            if issubclass(et, (KeyboardInterrupt, SystemExit, MemoryError)):
                return False
            self.rec.valid += 1
            txt = "".join(traceback.format_exception(et, ev, tb))[-1800:]
            self.rec.fail(self.key, "exception %s: %s" % (et.__name__, ev), traceback=txt)
            return True

    def case(self, key):
        """with rec.case(key): ...   any exception is a violation of that case."""
        return Recorder._Case(self, _plain(key))

    def pack(self):
        return {"states": self.states, "outcomes": self.outcomes, "calls": self.calls,
                "valid": self.valid, "samples": self.samples[:4],
                "violations": self.violations, "nviol": self.nviol,
                "findings": self.findings, "skipped": self.skipped,
                "counters": self.counters}


# -- numeric comparison ------------------------------------------------------
def close(a, b, tol=1e-9):
    """Same shape, same NaN pattern, |a-b| <= tol*(1+|b|)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    try:
        a, b = a.astype(float), b.astype(float)
    except (TypeError, ValueError):
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    ok = ~na
    with np.errstate(invalid="ignore"):
        same = (a == b) | (np.abs(a - b) <= tol*(1. + np.abs(b)))
    return bool(np.all(same[ok]))


def maxdiff(a, b):
    try:
        return float(np.nanmax(np.abs(np.asarray(a, float) - np.asarray(b, float))))
    except Exception:
        return None


def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    with open(p) as f:
        return json.load(f)
