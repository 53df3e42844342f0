"""The simulated world around zoidberg: clock, worker pool, remote services, allocator.

One World is active at a time (per process).  Everything it does is decided by
the plan that created it; nothing here draws from a random generator that is
not seeded by the plan, and nothing reads a real clock.
"""
import math
import multiprocessing
import multiprocessing.pool
import pickle
import random
import sys
import threading
import time
import types
from collections import Counter

import numpy as np

real_sleep = time.sleep
real_time = time.time
real_monotonic = time.monotonic
real_perf = time.perf_counter
real_pool = multiprocessing.Pool

current = None  # the active World


class Hang(BaseException):
    """Raised inside a simulated worker whose request is never answered"""


class Deadlock(Exception):
    """The caller waits for something that can never happen, without a timeout"""


class Forever(BaseException):
    """The code waits and waits, longer than any operation may take"""


MAX_WAITS = 5000


class Ambient:
    """The clock of a run outside any World: waiting takes no real time, and waiting for ever is noticed"""

    def __init__(self):
        self.now = 0.0
        self.reads = 0
        self.waits = 0

    def sleep(self, dt):
        dt = float(dt)
        if dt < 0:
            raise ValueError("sleep length must be non-negative")
        self.now += dt
        self.waits += 1
        if self.waits > MAX_WAITS:
            raise Forever(f"still waiting after {self.waits} waits ({self.now:.0f} simulated seconds)")

    def time(self):
        self.reads += 1
        return self.now + 1e-6 * self.reads


ambient = None


class World:
    def __init__(self, seed=0, clock=None):
        self.rng = random.Random(seed)
        self.now = 0.0
        self.epoch = 1.7e9
        self.clock = clock  # optional callable (sim seconds, call number) -> time.time()
        self.clock_calls = 0
        self.task = None  # the simulated pool task that is executing, if any
        self.log = []
        self.faults = Counter()
        self.probes = Counter()
        self.pools = []
        self.service = None
        self.deadlocks = []
        self.slept = 0.0
        self.waits = 0
        self.interrupt_at = None  # control-C at the n-th wait

    def __enter__(self):
        global current
        assert current is None
        current = self
        return self

    def __exit__(self, *exc):
        global current
        current = None

    # -- clock
    def sleep(self, dt):
        dt = float(dt)
        if dt < 0:
            raise ValueError("sleep length must be non-negative")
        self.slept += dt
        self.waits += 1
        if self.waits > MAX_WAITS:
            raise Forever(f"still waiting after {self.waits} waits ({self.now:.0f} simulated seconds)")
        if self.task is not None:
            self.task.elapsed += dt
        else:
            self.advance(self.now + dt)

    def advance(self, t):
        """Let the pool's workers run up to time t, then be there"""
        for pool in self.pools:
            pool._run_until(t)
        self.now = max(self.now, t)

    def time(self):
        self.clock_calls += 1
        t = self.now + (self.task.elapsed if self.task is not None else 0.0)
        if self.clock is not None:
            return self.clock(t, self.clock_calls)
        return self.epoch + t

    def record(self, *ev):
        self.log.append(ev)


# --------------------------------------------------------------------------- pool


class _Task:
    def __init__(self, fn, args, kwds, callback, error_callback, number):
        # what crosses the process boundary is a copy
        self.payload = pickle.dumps((fn, args, kwds))
        self.callback, self.error_callback = callback, error_callback
        self.number = number
        self.elapsed = 0.0
        self.done_at = None  # None: not started or never finishes
        self.started_at = None
        self.hung = False
        self.ok = None
        self.value = None
        self.delivered = False


class SimAsyncResult:
    def __init__(self, pool, task):
        self._pool, self._task = pool, task

    def ready(self):
        t = self._task
        self._pool._run_until(self._pool._w.now)
        return t.done_at is not None and t.done_at <= self._pool._w.now

    def successful(self):
        if not self.ready():
            raise ValueError("not ready")
        return self._task.ok

    def wait(self, timeout=None):
        self._pool._wait(self._task, timeout)

    def get(self, timeout=None):
        w, t = self._pool._w, self._task
        start = w.now
        if isinstance(w.interrupt_at, int):
            if w.interrupt_at == 0:
                w.interrupt_at = "done"
                w.faults["user_interrupt"] += 1
                w.record("control-C")
                raise KeyboardInterrupt()
            w.interrupt_at -= 1
        ok = self._pool._wait(t, timeout)
        waited = w.now - start
        if not ok:
            w.record("get-timeout", t.number, round(waited, 9))
            w.faults["wait_timed_out"] += 1
            self._pool.waits.append((t.number, waited, "timeout"))
            raise multiprocessing.TimeoutError()
        self._pool.waits.append((t.number, waited, "ok" if t.ok else "error"))
        w.record("get", t.number, round(waited, 9), bool(t.ok))
        if t.ok:
            return pickle.loads(t.value)
        raise pickle.loads(t.value)


class SimPool:
    """A multiprocessing.Pool in which the simulator decides when each task runs"""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._w = current
        self._n = processes or 4
        if initializer is not None:
            initializer(*initargs)
        self._queue = []
        self._free = [0.0] * self._n  # time at which each worker is free
        self._tasks = []
        self.waits = []
        self.closed = False
        self.terminated = False
        self._w.pools.append(self)
        self._w.record("pool", self._n)

    # -- scheduling
    def _submit(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        if self.closed or self.terminated:
            raise ValueError("Pool not running")
        t = _Task(fn, tuple(args), kwds or {}, callback, error_callback, len(self._tasks))
        t.submitted = self._w.now
        self._tasks.append(t)
        self._queue.append(t)
        self._w.record("submit", t.number)
        return t

    def _start_next(self, limit):
        """Start the next queued task if a worker is free by `limit`"""
        if not self._queue or self.terminated:
            return False
        i = min(range(self._n), key=lambda k: (self._free[k], k))
        begin = max(self._free[i], self._queue[0].submitted)
        if begin > limit:
            return False
        t = self._queue.pop(0)
        t.started_at = begin
        w = self._w
        saved_now, saved_task = w.now, w.task
        w.task = t
        w.now = begin
        w.record("start", t.number, round(begin, 9))
        try:
            fn, args, kwds = pickle.loads(t.payload)
            try:
                value = fn(*args, **kwds)
                t.ok, t.value = True, pickle.dumps(value)
            except Hang:
                t.hung = True
            except Exception as e:
                t.ok = False
                try:
                    t.value = pickle.dumps(e)
                    pickle.loads(t.value)
                except Exception:
                    t.value = pickle.dumps(RuntimeError(f"{type(e).__name__}: {e}"))
        finally:
            w.task, w.now = saved_task, saved_now
        if t.hung:
            self._free[i] = float("inf")
            w.record("hung", t.number)
        else:
            t.done_at = begin + t.elapsed
            self._free[i] = t.done_at
            w.record("done", t.number, round(t.done_at, 9), bool(t.ok))
            cb = t.callback if t.ok else t.error_callback
            if cb is not None:
                t.pending_cb = cb
        return True

    def _run_until(self, limit):
        while self._start_next(limit):
            pass
        for t in sorted((t for t in self._tasks if t.done_at is not None and t.done_at <= limit and not t.delivered),
                        key=lambda t: (t.done_at, t.number)):
            t.delivered = True
            cb = getattr(t, "pending_cb", None)
            if cb is not None:
                cb(pickle.loads(t.value))

    def _wait(self, t, timeout):
        w = self._w
        if w.task is not None:
            raise RuntimeError("nested wait in a worker")
        deadline = None if timeout is None else w.now + max(0.0, float(timeout))
        # run just enough of the schedule to know when t completes
        while t.done_at is None and not t.hung and self._start_next(float("inf") if deadline is None else deadline):
            pass
        if t.done_at is None:
            if deadline is None:
                w.deadlocks.append(("wait-forever", t.number))
                raise Deadlock(f"waiting without timeout for request {t.number} that never completes")
            self._run_until(deadline)
            w.now = deadline
            return False
        if deadline is not None and t.done_at > deadline:
            self._run_until(deadline)
            w.now = deadline
            return False
        w.now = max(w.now, t.done_at)
        self._run_until(w.now)
        return True

    # -- API
    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return SimAsyncResult(self, self._submit(func, args, kwds, callback, error_callback))

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _multi(self, func, tasks, star=False):
        return [SimAsyncResult(self, self._submit(func, a if star else (a,))) for a in tasks]

    def map(self, func, iterable, chunksize=None):
        return [r.get() for r in self._multi(func, iterable)]

    def starmap(self, func, iterable, chunksize=None):
        return [r.get() for r in self._multi(func, iterable, True)]

    def imap(self, func, iterable, chunksize=1):
        res = self._multi(func, iterable)
        return (r.get() for r in res)

    def imap_unordered(self, func, iterable, chunksize=1):
        res = self._multi(func, iterable)
        self._run_until(float("inf"))
        res.sort(key=lambda r: (r._task.done_at is None, r._task.done_at or 0, r._task.number))
        return (r.get() for r in res)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Many(self._multi(func, iterable))

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Many(self._multi(func, iterable, True))

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = self.terminated = True
        self._queue.clear()
        self._w.record("terminate")

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        if not self.terminated:
            self._run_until(float("inf"))
            if any(t.hung for t in self._tasks):
                self._w.deadlocks.append(("join-forever", -1))
                raise Deadlock("joining a pool with a request that never completes")
            self._w.now = max([self._w.now] + [t.done_at for t in self._tasks if t.done_at is not None])
        self.terminated = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()


class _Many:
    def __init__(self, results):
        self._r = results

    def get(self, timeout=None):
        w = self._r[0]._pool._w if self._r else None
        out = []
        end = None if timeout is None or w is None else w.now + timeout
        for r in self._r:
            out.append(r.get(None if end is None else max(0.0, end - w.now)))
        return out

    def wait(self, timeout=None):
        for r in self._r:
            r.wait(timeout)

    def ready(self):
        return all(r.ready() for r in self._r)


# --------------------------------------------------------------------------- services


class Obj:
    """A plain record, like the types a SOAP client makes"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class _Types:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def make():
            o = Obj()
            o.__dict__["_type"] = name
            return o

        return make


def coils_to_table(config):
    """coil id -> current, or None if the configuration is given by id"""
    ids = getattr(config, "coilsIds", None)
    if ids is None:
        return None
    cur = np.asarray(config.coilsIdsCurrents, dtype=float)
    ids = [int(i) for i in ids]
    if len(ids) != len(cur):
        raise RuntimeError("number of coils and currents differ")
    return dict(zip(ids, cur.tolist()))


def config_number(config):
    """One number that depends on everything in the configuration"""
    table = coils_to_table(config)
    extra = float(getattr(config, "custom", 0.0))
    if table is not None:
        v = 0.0
        for k in sorted(table):
            v += np.sin(0.37 * k) * table[k]
        return 0.3 + 0.2 * np.sin(v * 1e-3) + extra
    ids = getattr(config, "configIds", None)
    if ids is None:
        if not extra:
            raise RuntimeError("no magnetic configuration given")
        return extra
    if isinstance(ids, (list, tuple, np.ndarray)):
        ids = ids[0]
    return 0.25 + 0.04 * (int(ids) % 7) + extra


def axis(phi):
    return 5.5 + 0.12 * np.cos(5 * phi), 0.1 * np.sin(5 * phi)


def flow(R, Z, phi0, phi1, conf, step):
    """Where the service says the field line through (R, Z, phi0) crosses phi1"""
    R = np.asarray(R, dtype=float)
    Z = np.asarray(Z, dtype=float)
    ax, az = axis(phi0)
    bx, bz = axis(phi1)
    dx, dz = R - ax, Z - az
    r2 = dx**2 + dz**2
    ang = (conf + 0.1 * np.exp(-r2)) * (phi1 - phi0)
    c, s = np.cos(ang), np.sin(ang)
    # the integrator's error: first order in the step size
    err = 1e-2 * step * np.sin(phi1 - phi0)
    return bx + c * dx - s * dz + err, bz + s * dx + c * dz + 0.5 * err


def _flow1(R, Z, phi0, phi1, conf, step):
    """flow() of a single point, fast"""
    dx, dz = R - (5.5 + 0.12 * math.cos(5 * phi0)), Z - 0.1 * math.sin(5 * phi0)
    ang = (conf + 0.1 * math.exp(-(dx * dx + dz * dz))) * (phi1 - phi0)
    c, s = math.cos(ang), math.sin(ang)
    err = 1e-2 * step * math.sin(phi1 - phi0)
    return 5.5 + 0.12 * math.cos(5 * phi1) + c * dx - s * dz + err, 0.1 * math.sin(5 * phi1) + s * dx + c * dz + 0.5 * err


def bfield(x, y, z, conf):
    """Cartesian field of the field service"""
    x, y, z = (np.asarray(v, dtype=float) for v in (x, y, z))
    phi = np.arctan2(y, x)
    R = np.sqrt(x**2 + y**2)
    br = conf * 0.3 * np.sin(phi * 5) * z + 0.02 * R
    bphi = -2.5 * 5.5 / R * (1 + 0.01 * conf * z)
    bz = conf * 0.2 * (R - 5.5) + 0.03 * np.cos(5 * phi)
    return br * np.cos(phi) - bphi * np.sin(phi), br * np.sin(phi) + bphi * np.cos(phi), bz


class ServiceError(Exception):
    pass


class Service:
    """The remote field-line tracer / field service.

    `faults` maps the ordinal of a request (in execution order) to a fault.
    The service computes what it was asked, from the request alone.
    """

    def __init__(self, world, forward=True, faults=None, latency=None):
        self.w = world
        self.forward = forward
        self.faults = {int(k): v for k, v in (faults or {}).items()}
        self.latency = latency or (lambda n: 0.5)
        self.n = 0
        self.requests = []
        self.down = None
        self.probe_calls = 0
        self.quiet = False  # do not count

    # -- helpers
    def _enter(self, kind, osa_timeout=None):
        w = self.w
        n = self.n
        self.n += 1
        f = self.faults.get(n)
        if f is None:
            f = ["ok", self.latency(n)]
        name, arg = f[0], (f[1] if len(f) > 1 else None)
        w.record("request", n, kind, name)
        limit = float("inf") if osa_timeout is None else float(osa_timeout)
        if name == "hang":
            w.faults["request_hang"] += 1
            if limit == float("inf"):
                if w.task is not None:
                    raise Hang()
                w.deadlocks.append(("request-forever", n))
                raise Deadlock("request without timeout is never answered")
            w.sleep(limit)
            raise TimeoutError("timed out")
        if name == "error":
            w.faults["request_error"] += 1
            w.sleep(min(self.latency(n), limit))
            raise make_error(arg)
        if name == "interrupt":
            w.faults["interrupt"] += 1
            raise (KeyboardInterrupt() if arg != "exit" else SystemExit(1))
        if name == "slow":
            w.faults["request_slow"] += 1
            if arg > limit:
                w.sleep(limit)
                raise TimeoutError("timed out")
            w.sleep(arg)
            return n, None
        lat = arg if name == "ok" and arg is not None else self.latency(n)
        if lat > limit:
            w.sleep(limit)
            raise TimeoutError("timed out")
        w.sleep(lat)
        if name in ("short", "long", "empty", "garbled"):
            w.faults["reply_" + name] += 1
            return n, [name, arg]
        return n, None

    def _mangle(self, lines, mangle):
        if mangle is None:
            return lines
        name, arg = mangle
        if name == "short":
            k = int(arg or 1)
            return lines[: max(0, len(lines) - k)]
        if name == "long":
            return lines + lines[: int(arg or 1)]
        if name == "empty":
            return []
        return lines

    # -- tracing
    def trace(self, points, config, task, *rest, **kw):
        n, mangle = self._enter("trace", kw.get("osa_timeout"))
        x = np.array(points.x1, dtype=float).ravel()
        y = np.array(points.x2, dtype=float).ravel()
        z = np.array(points.x3, dtype=float).ravel()
        if not len(x) == len(y) == len(z):
            raise ServiceError("points of different length")
        conf = config_number(config)
        inverse = bool(getattr(config, "inverseField", False))
        forward = self.forward(conf) if callable(self.forward) else self.forward
        going = 1.0 if (forward != inverse) else -1.0
        step = float(task.step)
        if hasattr(task, "poincare"):
            return self._poincare(n, x, y, z, conf, step, task.poincare)
        if hasattr(task, "linesPhi"):
            span = float(task.linesPhi.phi)
            dphi = going * abs(span)
            mode = "phi"
        else:
            span = step * int(task.lines.numSteps)
            dphi = going * span / 6.0
            mode = "steps"
        self.requests.append(dict(kind="trace", mode=mode, n=n, x=x, y=y, z=z, conf=conf, table=coils_to_table(config),
                                  ids=getattr(config, "configIds", None), inverse=inverse, step=step, span=span, dphi=dphi))
        R = np.sqrt(x**2 + y**2)
        phi0 = np.arctan2(y, x)
        lines = []
        nv = 2 + n % 3
        for i in range(len(x)):
            r, h, p0 = float(R[i]), float(z[i]), float(phi0[i])
            v = Obj(x1=[], x2=[], x3=[])
            for k in range(nv):
                p1 = p0 + dphi * k / (nv - 1) if k < nv - 1 else p0 + dphi
                q = _flow1(r, h, p0, p1, conf, step)
                v.x1.append(q[0] * math.cos(p1))
                v.x2.append(q[0] * math.sin(p1))
                v.x3.append(q[1])
            lines.append(Obj(vertices=v))
        return Obj(lines=self._mangle(lines, mangle))

    def _poincare(self, n, x, y, z, conf, step, want):
        self.requests.append(dict(kind="poincare", n=n, x=x, y=y, z=z, conf=conf, planes=list(want.phi0), points=want.numPoints))
        R = np.sqrt(x**2 + y**2)
        surfs = []
        for i in range(min(2, len(x))):
            q = [_flow1(float(R[i]), float(z[i]), 0.0, 2 * math.pi * k, conf, step) for k in range(3)]
            surfs.append(Obj(points=Obj(x1=[a for a, _ in q], x2=[0.0] * 3, x3=[b for _, b in q])))
        return Obj(surfs=surfs)

    def findAxis(self, step, config, settings, *rest, **kw):
        n, mangle = self._enter("axis", kw.get("osa_timeout"))
        conf = config_number(config)
        self.requests.append(dict(kind="axis", n=n, x=np.zeros(0), y=np.zeros(0), z=np.zeros(0), conf=conf, step=step))
        v = Obj(x1=[], x2=[], x3=[])
        for p in AXIS_PHI[n % 4:] + AXIS_PHI[:n % 4]:
            r, h = w7x_axis(p, conf)
            v.x1.append(r * math.cos(p))
            v.x2.append(r * math.sin(p))
            v.x3.append(h)
        return Obj(axis=Obj(vertices=v))

    # -- field
    def magneticField(self, points, config, *rest, **kw):
        n, mangle = self._enter("field", kw.get("osa_timeout"))
        x = np.array(points.x1, dtype=float).ravel()
        y = np.array(points.x2, dtype=float).ravel()
        z = np.array(points.x3, dtype=float).ravel()
        conf = config_number(config)
        self.requests.append(dict(kind="field", n=n, x=x, y=y, z=z, conf=conf, table=coils_to_table(config),
                                  ids=getattr(config, "configIds", None), timeout=kw.get("osa_timeout")))
        b = bfield(x, y, z, conf)
        b = [self._mangle([float(v) for v in c], mangle) for c in b]
        return Obj(field=Obj(x1=b[0], x2=b[1], x3=b[2]))

    def getPlasmaField(self, a, url, points, b, **kw):
        n, mangle = self._enter("plasma", kw.get("osa_timeout"))
        r = np.array(points.x1, dtype=float).ravel()
        phi = np.array(points.x2, dtype=float).ravel()
        z = np.array(points.x3, dtype=float).ravel()
        self.requests.append(dict(kind="plasma", n=n, url=url, x=r, y=phi, z=z))
        v = plasma(r, phi, z)
        v = [self._mangle([float(q) for q in c], mangle) for c in v]
        return Obj(x1=v[0], x2=v[1], x3=v[2])


AXIS_PHI = [0.0, 0.2, 0.4, 0.7, 1.0, 1.3]


def w7x_axis(phi, conf):
    return 5.5 + conf * math.cos(5 * phi), 0.3 * conf * math.sin(5 * phi) + 0.01


def plasma(r, phi, z):
    return 0.01 * np.sin(phi) * r, 0.02 * z + 0.001 * r, 0.03 * np.cos(phi + z)


ERRORS = ["runtime", "timeout", "oserror", "value", "conn", "key"]


def make_error(kind):
    return {
        "runtime": RuntimeError("service: internal server error"),
        "timeout": TimeoutError("service: read timed out"),
        "oserror": OSError(104, "Connection reset by peer"),
        "value": ValueError("service: malformed reply"),
        "conn": ConnectionRefusedError(111, "Connection refused"),
        "key": KeyError("service"),
    }[kind or "runtime"]


class _Proxy:
    """Client(url).service: looks the service up at call time, so that it pickles and survives restarts"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if current is None or current.service is None:
            raise ServiceError("no service in this world")
        return getattr(current.service, name)


class Client:
    def __init__(self, url, **kw):
        self.url = url
        if current is not None and current.service is not None:
            s = current.service
            s.probe_calls += 1
            if s.down == "osa":
                raise ConnectionRefusedError(111, "Connection refused")
        self.types = _Types()
        self.service = _Proxy()


class _Response:
    def __init__(self, status):
        self.status_code = status
        self.ok = status < 400

    def raise_for_status(self):
        if self.status_code >= 400:
            raise OSError(f"{self.status_code} Server Error")


def _requests_get(url, timeout=None, **kw):
    w = current
    down = w.service.down if w is not None and w.service is not None else None
    if isinstance(timeout, tuple):
        timeout = sum(t for t in timeout if t is not None)
    if down == "refused":
        raise ConnectionRefusedError(111, "Connection refused")
    if down == "blackhole":
        if timeout is None:
            w.deadlocks.append(("probe-forever", 0))
            raise Deadlock("availability probe without timeout")
        w.sleep(timeout)
        raise TimeoutError("connect timed out")
    if down in ("503", "404"):
        return _Response(int(down))
    return _Response(200)


class _FscFlt(types.ModuleType):
    """Stand-in for fusionsc.flt"""

    @staticmethod
    def poincareInPhiPlanes(points, field, phiPlanes, nTurns, direction="ccw", **kw):
        w = current
        s = w.service
        n, mangle = s._enter("fsc")
        x, y, z = (np.array(v, dtype=float) for v in points)
        planes = [float(p) for p in phiPlanes]
        tol = float(kw.get("targetError", 1e-4))
        s.requests.append(dict(kind="fsc", n=n, x=x, y=y, z=z, planes=planes, turns=nTurns, direction=direction, kw=dict(kw)))
        R = np.sqrt(x**2 + y**2)
        phi0 = np.arctan2(y, x)
        out = np.empty((3, len(planes)) + x.shape + (int(nTurns),))
        for i, p in enumerate(planes):
            # go to the first crossing of that plane in the asked direction
            d = np.mod(p - phi0, 2 * np.pi)
            d = np.where(d < 1e-12, 2 * np.pi, d)
            if direction == "cw":
                d = d - 2 * np.pi
            elif direction != "ccw":
                raise ServiceError("bad direction")
            r1, z1 = flow(R, z, phi0, phi0 + d, field.conf, tol * 100)
            for t in range(int(nTurns)):
                out[0, i, ..., t] = r1 * np.cos(p)
                out[1, i, ..., t] = r1 * np.sin(p)
                out[2, i, ..., t] = z1
        return out


class FscField:
    """Stand-in for a fusionsc magnetic configuration"""

    def __init__(self, conf):
        self.conf = conf

    def interpolateXyz(self, pts):
        x, y, z = (np.array(v, dtype=float) for v in pts)
        x, y, z = np.broadcast_arrays(x, y, z)
        s = current.service
        n, mangle = s._enter("fsc-field")
        s.requests.append(dict(kind="fsc-field", n=n, x=x.copy(), y=y.copy(), z=z.copy()))
        return np.array(bfield(x, y, z, self.conf))


# --------------------------------------------------------------------------- allocator

real_empty = np.empty
real_empty_like = np.empty_like
poison = None  # None, or a function(array) that fills fresh memory


def _fresh(r):
    """Memory that the code under test gets uninitialised (libraries are trusted)"""
    global poison
    p = poison
    if p is not None and sys._getframe(2).f_code.co_filename.startswith(under_test):
        poison = None
        try:
            p(r)
        finally:
            poison = p
    return r


under_test = ""


def _sim_empty(*a, **k):
    return _fresh(real_empty(*a, **k))


def _sim_empty_like(*a, **k):
    return _fresh(real_empty_like(*a, **k))


def make_poison(seed):
    rng = np.random.default_rng(seed)

    def fill(arr):
        if not isinstance(arr, np.ndarray) or arr.size == 0:
            return
        try:
            if arr.dtype.kind == "f":
                arr[...] = rng.uniform(-1.0, 1.0, arr.shape) * 10.0 ** rng.integers(-3, 4)
            elif arr.dtype.kind == "c":
                arr[...] = rng.uniform(-1.0, 1.0, arr.shape)
            elif arr.dtype.kind in "iu":
                arr[...] = rng.integers(0, 100, arr.shape)
            elif arr.dtype.kind == "b":
                arr[...] = rng.integers(0, 2, arr.shape)
        except Exception:
            pass

    return fill


# --------------------------------------------------------------------------- installation


def _pool(*a, **k):
    if current is None:
        return real_pool(*a, **k)
    return SimPool(*a, **k)


def _sleep(dt):
    w = current or ambient
    if w is None:
        return real_sleep(dt)
    w.sleep(dt)


def _wall():
    if current is not None:
        return current.time()
    return real_time() if ambient is None else 1.7e9 + ambient.time()


def _time():
    return _wall()


def _time_ns():
    return int(_wall() * 1e9)


def _elapsed(real):
    w = current
    if w is not None:
        return w.now + (w.task.elapsed if w.task else 0.0)
    return real() if ambient is None else ambient.time()


def _monotonic():
    return _elapsed(real_monotonic)


def _perf():
    return _elapsed(real_perf)


def _ctx_pool(self, *a, **k):
    if current is None:
        return _real_ctx_pool(self, *a, **k)
    return SimPool(*a, **k)


def _class_pool(real):
    class P(real):
        def __new__(cls, *a, **k):
            if current is None:
                return object.__new__(cls)
            return SimPool(*a, **k)

    P.__name__ = real.__name__
    return P


def install():
    global _real_ctx_pool
    import multiprocessing.context

    multiprocessing.Pool = _pool
    _real_ctx_pool = multiprocessing.context.BaseContext.Pool
    multiprocessing.context.BaseContext.Pool = _ctx_pool
    multiprocessing.pool.Pool = _class_pool(multiprocessing.pool.Pool)
    multiprocessing.pool.ThreadPool = _class_pool(multiprocessing.pool.ThreadPool)
    time.sleep = _sleep
    time.time = _time
    time.time_ns = _time_ns
    time.monotonic = _monotonic
    time.perf_counter = _perf
    np.empty = _sim_empty
    np.empty_like = _sim_empty_like
    osa = types.ModuleType("osa")
    osa.Client = Client
    sys.modules["osa"] = osa
    req = types.ModuleType("requests")
    req.get = _requests_get
    req.exceptions = types.SimpleNamespace(RequestException=OSError, ConnectionError=OSError, Timeout=TimeoutError)
    sys.modules["requests"] = req
    fsc = types.ModuleType("fusionsc")
    fsc.flt = _FscFlt("fusionsc.flt")
    sys.modules["fusionsc"] = fsc
    sys.modules["fusionsc.flt"] = fsc.flt
