"""Bookkeeping of an exhaustive exploration.

A check module offers
    PLAN[tier] -> list of unit payloads (tuples of plain values), and
    run_unit(ctx, *payload)   explores one unit completely.
Every explored case goes through ctx.run(key, fn): an exception of the
implementation or a failed comparison inside fn is a violation of the property
on that case.  Nothing here is random.
"""
import hashlib
import io
import json
import logging
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np


class Mismatch(AssertionError):
    pass


class NonTermination(BaseException):
    pass


def fmt(x, n=400):
    try:
        s = np.array2string(np.asarray(x), precision=6, threshold=60) \
            if isinstance(x, (np.ndarray, list, tuple, np.generic)) else repr(x)
    except Exception:
        s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def relerr(a, b):
    """norm(a-b) relative to norm(b); nan/inf/shape problems give inf."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.
    with np.errstate(all='ignore'):
        d = np.sqrt(np.sum(np.abs(a - b)**2))
        s = np.sqrt(np.sum(np.abs(b)**2))
    if not np.isfinite(d):
        return 0. if np.array_equal(a, b) else np.inf
    return d / s if s > 0 else d


class Ctx:
    MAX_VIOLATIONS = 10

    def __init__(self, pid, tier, seed, unit, only=None):
        self.pid, self.tier, self.seed, self.unit, self.only = \
            pid, tier, seed, unit, only
        self.states = self.transitions = self.traces = self.checks = 0
        self.skipped = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.notes = {}
        self._case = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- exploring ---------------------------------------------------------
    def run(self, key, fn, *args, **data):
        """Explore one case.  Returns fn's value, or None if it violated."""
        if self.only is not None and key != self.only:
            return None
        if len(self.violations) >= self.MAX_VIOLATIONS:
            self.skipped += 1
            return None
        self.states += 1
        self._case = key
        np.random.seed(zlib.crc32(key.encode()) & 0x7fffffff)
        if len(self.samples) < 2:
            self.samples.append({'case': key, **{k: fmt(v, 200) for k, v in data.items()}})
        before = self.traces, self.checks
        try:
            out = fn(*args)
            if self.traces == before[0] and self.checks > before[1]:
                self.traces += 1      # the case ran to its end and agreed with the oracle
            return out
        except NonTermination:
            self.violation(key, 'no answer within the time limit', data)
            raise
        except Mismatch as e:
            self.violation(key, str(e), data)
        except Exception as e:     # the implementation raised on a legal case
            tb = traceback.format_exc(limit=-4)
            self.violation(key, 'raised %s: %s' % (type(e).__name__, e), data, tb)
        return None

    def violation(self, key, msg, data=None, tb=None):
        self.violations.append(dict(
            unit=list(self.unit), key=key, message=msg[:1500],
            data={k: fmt(v, 1500) for k, v in (data or {}).items()},
            traceback=tb))

    def step(self, n=1):
        """n operations of the real code executed."""
        self.transitions += n

    def trace(self, n=1):
        """n complete runs of a model replayed on the implementation."""
        self.traces += n

    def see(self, *values):
        """Record an observed outcome (for the count of distinct outcomes)."""
        h = hashlib.blake2b(digest_size=8)
        for v in values:
            if isinstance(v, (np.ndarray, np.generic, float, complex)):
                a = np.asarray(v)
                if a.dtype.kind in 'fc':
                    with np.errstate(all='ignore'):
                        a = np.round(a.astype(complex), 6) + 0.
                h.update(str(a.shape).encode() + a.tobytes())
            else:
                h.update(repr(v).encode())
        self.outcomes.add(h.digest())

    # -- oracles -----------------------------------------------------------
    def ok(self, cond, msg, *vals):
        self.checks += 1
        if not cond:
            raise Mismatch(msg + ''.join(' | ' + fmt(v) for v in vals))

    def close(self, got, want, tol, msg):
        self.checks += 1
        e = relerr(got, want)
        if not e <= tol:
            raise Mismatch('%s: relative difference %.3g > %g | got %s | expected %s'
                           % (msg, e, tol, fmt(got), fmt(want)))

    def near(self, got, want, tol, msg):
        """absolute comparison"""
        self.checks += 1
        got, want = np.asarray(got), np.asarray(want)
        d = np.max(np.abs(got - want)) if got.shape == want.shape and got.size else \
            (0. if got.shape == want.shape else np.inf)
        if not d <= tol:
            raise Mismatch('%s: difference %.3g > %g | got %s | expected %s'
                           % (msg, d, tol, fmt(got), fmt(want)))

    def same(self, got, want, msg):
        """bitwise equality of arrays/scalars (nan equals nan)"""
        self.checks += 1
        if not same(got, want):
            raise Mismatch('%s: got %s | expected %s' % (msg, fmt(got), fmt(want)))

    def raises(self, fn, msg, exc=Exception):
        self.checks += 1
        try:
            r = fn()
        except exc:
            return
        raise Mismatch('%s: accepted and returned %s' % (msg, fmt(r)))

    def result(self):
        return dict(unit=list(self.unit), states=self.states,
                    transitions=self.transitions, traces=self.traces,
                    checks=self.checks, outcomes=[o.hex() for o in self.outcomes],
                    samples=self.samples, violations=self.violations,
                    skipped=self.skipped, notes=self.notes)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, np.generic)) or isinstance(b, (np.ndarray, np.generic)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in 'fc':
            return np.array_equal(a, b, equal_nan=True)
        return np.array_equal(a, b)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a == b


class capture_logs:
    """Collect log records (level, message) while active."""

    def __enter__(self):
        self.records = []
        outer = self

        class H(logging.Handler):
            def emit(self, record):
                outer.records.append((record.levelname, record.getMessage()))
        self.h = H()
        self.root = logging.getLogger()
        self.old = self.root.level
        self.olddis = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        self.root.setLevel(logging.INFO)
        self.root.addHandler(self.h)
        return self

    def __exit__(self, *a):
        self.root.removeHandler(self.h)
        self.root.setLevel(self.old)
        logging.disable(self.olddis)

    def levels(self, minimum='WARNING'):
        order = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
        return [r for r in self.records if order.index(r[0]) >= order.index(minimum)]
