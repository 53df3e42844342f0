"""Shared between the driver and the property modules: run context, comparison, plan shrinking."""
import copy
import hashlib
import json
import random
import re
from collections import Counter

import numpy as np


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class Ctx:
    """What a run may use: scratch space, an event log, counters"""

    def __init__(self, scratch, known=()):
        self.scratch = scratch
        self.events = []
        self._h = hashlib.sha256()
        self.faults = Counter()
        self.probes = Counter()
        self.simtime = 0.0
        self.known = set(known)
        self.findings = {}
        self.states = set()
        self.interleavings = 0
        self.nontrivial = False

    def plain(self, text):
        """Without the name of the scratch directory, which differs between processes"""
        return re.sub(r"/dev/shm/zoidsim-\w+/r[0-9]+-[\w-]+|" + re.escape(self.scratch), "SCRATCH", text)

    def log(self, *ev):
        s = self.plain(repr(ev))
        self._h.update(s.encode())
        if len(self.events) < 400:
            self.events.append(s[:300])

    def digest(self):
        return self._h.hexdigest()

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def violate(self, cls, msg, finding=None):
        if finding is not None and finding in self.known:
            self.findings[finding] = str(msg)[:300]
            return
        raise Violation(cls, str(msg)[:2000])

    def check(self, cond, cls, msg, finding=None):
        if not cond:
            self.violate(cls, msg() if callable(msg) else msg, finding)

    def world(self, w):
        """Take over the log and counters of a finished World"""
        for ev in w.log:
            self.log(*ev)
        self.faults.update(w.faults)
        self.probes.update(w.probes)
        self.simtime += w.now


def fingerprint(x):
    """Digest of any nested result: arrays bit for bit"""
    h = hashlib.sha256()

    def go(v):
        if isinstance(v, np.ndarray):
            h.update(f"A{v.shape}{v.dtype.str}".encode())
            h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, dict):
            h.update(b"D")
            for k in sorted(v, key=str):
                h.update(str(k).encode())
                go(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(f"L{len(v)}".encode())
            for q in v:
                go(q)
        elif isinstance(v, (np.generic,)):
            go(np.asarray(v))
        else:
            h.update(repr(v).encode())

    go(x)
    return h.hexdigest()


def diff(a, b, rtol=0.0, atol=0.0, path=""):
    """None if the two results agree, otherwise a description of the first difference"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return f"{path}/{k}: unexpected"
            if k not in b:
                return f"{path}/{k}: missing"
            d = diff(a[k], b[k], rtol, atol, f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, atol, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, (np.ndarray, np.generic, float, int)) and isinstance(b, (np.ndarray, np.generic, float, int)) and not isinstance(a, bool):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return f"{path}: shape {x.shape} vs {y.shape}"
        if x.dtype.kind in "fciub" and y.dtype.kind in "fciub":
            if rtol == 0 and atol == 0:
                ok = (x == y) | ((x != x) & (y != y))
            else:
                ok = np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
            if not np.all(ok):
                i = tuple(int(q) for q in np.argwhere(~np.atleast_1d(ok))[0]) if x.shape else ()
                return f"{path}: {int(np.sum(~ok))} of {x.size} values differ, expected {x[i] if x.shape else x!r} got {y[i] if y.shape else y!r} at {i}"
            return None
        return None if np.array_equal(x, y) else f"{path}: {a!r} vs {b!r}"
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} vs {type(b).__name__} ({str(b)[:80]})"
    return None if a == b else f"{path}: {str(a)[:80]} vs {str(b)[:80]}"


def rng_for(*key):
    return random.Random(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], "big"))


def shrink_lists(plan, keys):
    """Candidates with parts of the lists / dicts at plan[key] removed (halves, then single items)"""
    for key in keys:
        v = plan.get(key)
        if isinstance(v, dict):
            items = sorted(v.items(), key=str)
            mk = lambda it: dict(it)
        elif isinstance(v, list):
            items = list(v)
            mk = list
        else:
            continue
        n = len(items)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                q = copy.deepcopy(plan)
                q[key] = mk(items[:i] + items[i + size:])
                yield q
            size //= 2


def shrink_values(plan, simple):
    """Candidates with single values replaced by simpler ones: simple = {key: [values, simplest first]}"""
    for key, vals in simple.items():
        if key not in plan:
            continue
        for v in vals:
            if plan[key] == v:
                break
            q = copy.deepcopy(plan)
            q[key] = v
            yield q


def jsonable(x):
    return json.loads(json.dumps(x))
