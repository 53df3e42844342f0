"""Interruption and interleaving at source-line granularity of the code under test."""
import random
import sys
import threading
from collections import Counter

from . import world
from .boot import PKG


def _key(code):
    return code.co_filename[len(PKG):] + ":" + code.co_qualname


class LineProfile:
    """Counts line events per function of the code under test"""

    def __init__(self):
        self.count = Counter()
        self.total = 0

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.count[_key(frame.f_code)] += 1
            self.total += 1
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)

    def pick(self, u, v):
        """A point (function, n-th line event in it): function by u, event by v (a fraction, or a number from either end)"""
        names = sorted(self.count)
        if not names:
            return None
        name = names[min(int(u * len(names)), len(names) - 1)]
        if isinstance(v, int):  # counted from the beginning or the end
            n = min(v, self.count[name]) if v > 0 else max(1, self.count[name] + 1 + v)
        else:
            n = 1 + min(int(v * self.count[name]), self.count[name] - 1)
        return name, n


class LineFault:
    """Raise `exc` at the n-th line event inside function `name`"""

    def __init__(self, name, n, exc):
        self.name, self.n, self.exc = name, n, exc
        self.seen = 0
        self.fired = False
        self.where = None
        self.stack = []

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG) and _key(frame.f_code) == self.name:
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.seen += 1
            if self.seen == self.n:
                self.fired = True
                self.where = frame.f_lineno
                f = frame
                while f is not None:
                    if f.f_code.co_filename.startswith(PKG):
                        self.stack.append(f.f_code.co_name)
                    f = f.f_back
                raise self.exc
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)


EXCEPTIONS = ["interrupt", "memory", "oserror", "runtime"]


def make_exception(kind):
    return {
        "interrupt": KeyboardInterrupt("simulated"),
        "memory": MemoryError("simulated"),
        "oserror": OSError(5, "simulated"),
        "runtime": RuntimeError("simulated"),
    }[kind]


def _in_worker():
    """A simulated worker process is executing: it does not share the interpreter with the threads"""
    w = world.current
    return w is not None and w.task is not None


class Stuck(Exception):
    pass


class Baton:
    """Runs callables in real threads, exactly one of which holds the baton.

    The baton moves only at line events of the code under test, at the points
    given by `switches`: a list of (thread, function, n, to): when `thread`
    executes its n-th line event in `function`, the baton goes to thread
    `to` (if that one is still running), and at random if `walk` is given.  When a thread ends, the baton goes to
    the lowest-numbered unfinished thread.
    """

    def __init__(self, fns, switches, walk=None):
        """walk: None or (seed, [probability of giving up the baton at a line, per thread])"""
        self.walk = walk and (random.Random(walk[0]), list(walk[1]))
        self.fns = fns
        self.n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * self.n
        self.waiting = [False] * self.n
        self.unblocked = 0
        self.result = [None] * self.n
        self.switches = [dict() for _ in fns]
        for th, name, k, to in switches:
            self.switches[th].setdefault(name, {})[k] = to
        self.counts = [Counter() for _ in fns]
        self.taken = []
        self.finished = threading.Semaphore(0)
        self.steps = 0

    def _wait(self, i):
        self.waiting[i] = True
        self.sem[i].acquire()
        self.waiting[i] = False

    def _move(self, i, to):
        self.sem[to].release()
        self._wait(i)

    def _trace(self, i):
        table = self.switches[i]
        counts = self.counts[i]

        def local(frame, event, arg):
            if event == "line":
                name = _key(frame.f_code)
                counts[name] += 1
                self.steps += 1
                t = table.get(name)
                to = t.pop(counts[name], None) if t else None
                if self.walk is not None and to is None and self.walk[0].random() < self.walk[1][i]:
                    to = self.walk[0].randrange(self.n)
                if to is not None:
                    if to is not None and to != i and not self.done[to] and not _in_worker():
                        self.taken.append((i, name, counts[name], to))
                        self._move(i, to)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(PKG):
                return local
            return None

        return glob

    def _body(self, i):
        self._wait(i)
        sys.settrace(self._trace(i))
        try:
            self.result[i] = ("ok", self.fns[i]())
        except BaseException as e:
            self.result[i] = ("raised", e)
        finally:
            sys.settrace(None)
            self.done[i] = True
            for k in range(self.n):
                if not self.done[k]:
                    self.sem[k].release()
                    break
            else:
                self.finished.release()

    def run(self, timeout=120):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sem[0].release()
        left, seen = timeout, -1
        while not self.finished.acquire(timeout=3):
            left -= 3
            if left <= 0:
                raise Stuck("threads do not finish")
            if seen == self.steps:
                # the holder is blocked, e.g. by a lock that another thread holds: let that one go on
                for k in range(self.n):
                    if self.waiting[k] and not self.done[k]:
                        self.unblocked += 1
                        self.sem[k].release()
                        break
            seen = self.steps
        return self.result
