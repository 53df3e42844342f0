"""The storage seam: control of the libc interposer, process lives, power loss."""
import ctypes
import os
import pickle
import select
import shutil
import struct
import sys
import traceback

CRASH, TORN, EIO, ENOSPC, SHORT, EINTR, READ_EIO = 1, 2, 3, 4, 5, 6, 7
KINDS = {"crash": CRASH, "torn": TORN, "eio": EIO, "enospc": ENOSPC, "short": SHORT, "eintr": EINTR, "read_eio": READ_EIO}
OPS = {1: "create", 2: "write", 3: "truncate", 4: "rename", 5: "unlink", 6: "fsync", 7: "link", 8: "mkdir"}

_lib = ctypes.CDLL(None)


def available():
    try:
        return _lib.sim_present() == 42
    except AttributeError:
        return False


if available():
    _lib.sim_fault.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_long]
    _lib.sim_ops.restype = ctypes.c_long
    _lib.sim_reads.restype = ctypes.c_long
    _lib.sim_fired.restype = ctypes.c_long
    _lib.sim_set_budget.argtypes = [ctypes.c_long]


def enable(prefix, journal_fd=-1):
    _lib.sim_enable(os.path.realpath(prefix).encode(), journal_fd)


def disable():
    _lib.sim_disable()


def plan_faults(faults):
    for at, kind, arg in faults:
        if kind == "read_eio":
            _lib.sim_fault(-int(at), READ_EIO, 0)
        else:
            _lib.sim_fault(int(at), KINDS[kind], int(arg))


def clear_faults():
    _lib.sim_clear_faults()


def ops():
    return _lib.sim_ops()


def reads():
    return _lib.sim_reads()


def fired():
    return {k: _lib.sim_fired(v) for k, v in KINDS.items() if _lib.sim_fired(v)}


class Life:
    """What came out of one simulated process life"""

    def __init__(self, status, value=None, fired=None, ops=0, reads=0, error=None):
        self.status = status  # ok | raised | killed | broken
        self.value, self.fired, self.ops, self.reads, self.error = value, fired or {}, ops, reads, error


def _read_all(fd):
    out = b""
    while True:
        b = os.read(fd, 1 << 20)
        if not b:
            return out
        out += b


_entropy = [0]


def set_entropy(seed):
    """os.urandom (uuid4, temporary names) becomes a seeded stream in this process, and the process number a simulated one.

    A process also has its own salt for hashes and its own addresses: zoidberg's calls of hash() and id() see those of this life.
    """
    import builtins
    import numbers
    import random

    import numpy as np

    r = random.Random(seed)
    number = random.Random(-seed).randrange(2, 32768)
    os.urandom = lambda n: r.randbytes(n)
    os.getpid = lambda: number
    salt = r.getrandbits(40)

    def salted(obj):
        if isinstance(obj, (tuple, frozenset)):
            return any(salted(o) for o in obj)
        return not (obj is None or obj is Ellipsis or isinstance(obj, (numbers.Number, np.generic)))

    def hash(obj):
        v = builtins.hash(obj)
        return v ^ salt if salted(obj) else v

    def id(obj):
        return builtins.id(obj) + (salt << 8)

    for name, mod in list(sys.modules.items()):
        if name == "zoidberg" or name.startswith("zoidberg."):
            for f in hash, id:
                old = mod.__dict__.get(f.__name__)
                if old is None or getattr(old, "__module__", None) == __name__:
                    setattr(mod, f.__name__, f)


def live(fn, scratch, faults=(), budget=None, journal=None, disk=True):
    """Run fn() in a forked process with `scratch` as the simulated disk and cwd.

    Only what the process left on that disk survives it.  fn's return value (or
    exception) comes back if the process was not killed.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    _entropy[0] += 1
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            set_entropy(_entropy[0])
            os.chdir(scratch)
            jfd = os.open(journal, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600) if journal else -1
            if disk:
                enable(scratch, jfd)
                plan_faults(faults)
                if budget is not None:
                    _lib.sim_set_budget(int(budget))
            try:
                res = ("ok", fn(), None)
            except BaseException as e:
                res = ("raised", None, (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:]))
            out = pickle.dumps(res + ((fired(), ops(), reads()) if disk else ({}, 0, 0),))
            if disk:
                disable()
            while out:
                out = out[os.write(w, out):]
            os._exit(0)
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode())
            finally:
                os._exit(99)
    os.close(w)
    data = _read_all(r)
    os.close(r)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if code == 137:
        return Life("killed")
    if code in (-11, -6, -7) and (faults or budget is not None):
        # the netCDF/HDF5 libraries may crash on an I/O error: the process is gone, as if killed
        return Life("killed", fired={"library_crash": 1})
    if code != 0 or not data:
        return Life("broken", error=f"exit code {code}")
    status, value, error, (fi, no, nr) = pickle.loads(data)
    return Life(status, value, fi, no, nr, error)


def interleave(fns, scratch, choose, faults=None, max_turns=200000):
    """Run several processes on the same simulated disk, one file operation at a time.

    choose(ready) -> index into the list of processes that wait at the
    turnstile; may return (index, 'X') to kill that process there.
    """
    procs = []
    for i, fn in enumerate(fns):
        tr, tw = os.pipe()  # child -> scheduler: wants a turn
        gr, gw = os.pipe()  # scheduler -> child: go
        rr, rw = os.pipe()  # result
        sys.stdout.flush()
        _entropy[0] += 1
        pid = os.fork()
        if pid == 0:
            try:
                for q in procs:
                    for fd in q["parent_fds"]:
                        os.close(fd)
                os.close(tr), os.close(gw), os.close(rr)
                set_entropy(_entropy[0])
                os.chdir(scratch)
                enable(scratch, -1)
                plan_faults((faults or {}).get(i, ()))
                _lib.sim_turnstile(gr, tw)
                try:
                    res = ("ok", fn(), None)
                except BaseException as e:
                    res = ("raised", None, (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:]))
                _lib.sim_turnstile(-1, -1)
                out = pickle.dumps(res + ((fired(), ops(), reads()),))
                disable()
                while out:
                    out = out[os.write(rw, out):]
                os._exit(0)
            except BaseException:
                os._exit(99)
        os.close(tw), os.close(gr), os.close(rw)
        procs.append(dict(pid=pid, turn=tr, go=gw, res=rr, parent_fds=(tr, gw, rr), alive=True, waiting=False, data=b"", ended=False))
    lives = [None] * len(procs)
    order = []
    turns = 0
    while any(not p["ended"] for p in procs):
        # wait until every live process is either at the turnstile or finished
        for i, p in enumerate(procs):
            while not p["ended"] and not p["waiting"]:
                rd, _, _ = select.select([p["turn"], p["res"]], [], [])
                if p["turn"] in rd:
                    c = os.read(p["turn"], 1)
                    if c:
                        p["waiting"] = c.decode()
                        break
                if p["res"] in rd or True:
                    if p["res"] in rd:
                        b = os.read(p["res"], 1 << 20)
                        if b:
                            p["data"] += b
                            continue
                        code = os.waitstatus_to_exitcode(os.waitpid(p["pid"], 0)[1])
                        p["ended"] = True
                        if code == 137:
                            lives[i] = Life("killed")
                        elif code or not p["data"]:
                            lives[i] = Life("broken", error=f"exit code {code}")
                        else:
                            st, v, e, (fi, no, nr) = pickle.loads(p["data"])
                            lives[i] = Life(st, v, fi, no, nr, e)
                    else:
                        # turnstile pipe closed: wait for the result pipe
                        select.select([p["res"]], [], [])
        ready = [i for i, p in enumerate(procs) if p["waiting"]]
        if not ready:
            continue
        turns += 1
        if turns > max_turns:
            raise RuntimeError("interleaved processes do not finish")
        c = choose(ready, [procs[i]["waiting"] for i in ready])
        kill = False
        if isinstance(c, tuple):
            c, kill = c[0], True
        p = procs[c]
        order.append((c, p["waiting"], kill))
        p["waiting"] = False
        os.write(p["go"], b"X" if kill else b"G")
    for p in procs:
        for fd in p["parent_fds"]:
            os.close(fd)
    return lives, order


def read_journal(path):
    recs = []
    with open(path, "rb") as f:
        data = f.read()
    i = 0
    while i + 48 <= len(data):
        op, seq, off, la, lb, n = struct.unpack_from("<6q", data, i)
        i += 48
        a = data[i:i + la].decode(); i += la
        b = data[i:i + lb].decode(); i += lb
        d = b""
        if op == 2:
            d = data[i:i + n]; i += n
        recs.append((OPS[op], seq, off, a, b, d))
    return recs


def power_loss(before, recs, keep_meta, rng):
    """The disk after a power cut.

    before: {path: bytes} durable at the start.  recs: the journal.  Directory
    operations reach the disk in order; an fsync makes its file's data durable and
    with it all earlier directory operations.  Of the rest, the first
    `keep_meta` fraction of directory operations survive, and of every
    un-synced write nothing, a prefix, all of it, or (its length only) zeros.
    """
    # assign inode numbers
    names, content, durable = {}, {}, {}
    nxt = [0]

    def new():
        nxt[0] += 1
        return nxt[0]

    for p, b in before.items():
        i = new()
        names[p] = i
        durable[i] = bytes(b)
    live_names = dict(names)
    pend = {i: [] for i in durable}
    meta = []
    last_sync_meta = 0
    for op, seq, off, a, b, d in recs:
        if op == "create":
            i = new()
            live_names[a] = i
            durable[i] = b""
            pend[i] = []
            meta.append(("create", a, i))
        elif op == "write":
            i = live_names.get(a)
            if i is not None:
                pend[i].append(("write", off, d))
        elif op == "truncate":
            i = live_names.get(a)
            if i is not None:
                pend[i].append(("truncate", off, b""))
        elif op == "rename":
            i = live_names.pop(a, None)
            if i is not None:
                live_names[b] = i
                meta.append(("rename", a, b))
        elif op == "unlink":
            live_names.pop(a, None)
            meta.append(("unlink", a, None))
        elif op == "link":
            i = live_names.get(a)
            live_names[b] = i
            meta.append(("link", a, b))
        elif op == "fsync":
            i = live_names.get(a)
            if i is not None:
                durable[i] = _apply(durable[i], pend[i])
                pend[i] = []
                last_sync_meta = len(meta)
    keep = last_sync_meta + int(round(keep_meta * (len(meta) - last_sync_meta)))
    disk_names = dict(names)
    for m in meta[:keep]:
        if m[0] == "create":
            disk_names[m[1]] = m[2]
        elif m[0] == "rename":
            i = disk_names.pop(m[1], None)
            if i is not None:
                disk_names[m[2]] = i
        elif m[0] == "unlink":
            disk_names.pop(m[1], None)
        elif m[0] == "link":
            disk_names[m[2]] = disk_names.get(m[1])
    out = {}
    for p, i in sorted(disk_names.items(), key=lambda kv: (kv[1] is None, kv[1])):
        if i is None:
            continue
        data = durable[i]
        todo = pend[i]
        mode = rng.choice(["none", "prefix", "all", "zeros"]) if todo else "all"
        if mode == "prefix":
            k = rng.randrange(len(todo) + 1)
            part = list(todo[:k])
            if k < len(todo) and todo[k][0] == "write" and len(todo[k][2]) > 1:
                part.append(("write", todo[k][1], todo[k][2][: rng.randrange(len(todo[k][2]))]))
            data = _apply(data, part)
        elif mode == "all":
            data = _apply(data, todo)
        elif mode == "zeros":
            data = data + b"\0" * (len(_apply(data, todo)) - len(data))
        out[p] = data
    return out


def _apply(data, todo):
    data = bytearray(data)
    for kind, off, d in todo:
        if kind == "write":
            if len(data) < off:
                data.extend(b"\0" * (off - len(data)))
            data[off:off + len(d)] = d
        else:
            if off < len(data):
                del data[off:]
            else:
                data.extend(b"\0" * (off - len(data)))
    return bytes(data)


def snapshot(scratch):
    out = {}
    for root, _, files in os.walk(scratch):
        for f in files:
            p = os.path.join(os.path.realpath(root), f)
            with open(p, "rb") as fh:
                out[p] = fh.read()
    return out


def restore(scratch, files):
    for root, dirs, fs in os.walk(scratch):
        for f in fs:
            os.unlink(os.path.join(root, f))
    for p, b in files.items():
        with open(p, "wb") as fh:
            fh.write(b)


def spread(fn, items, n=8):
    """[fn(i) for i in items], computed by n forked processes"""
    items = list(items)
    procs = []
    for k in range(min(n, len(items))):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    out = pickle.dumps(("ok", [fn(i) for i in items[k::n]]))
                except BaseException:
                    out = pickle.dumps(("raised", traceback.format_exc()[-3000:]))
                while out:
                    out = out[os.write(w, out):]
            except BaseException:
                code = 99
            finally:
                os._exit(code)
        os.close(w)
        procs.append((pid, r))
    res = [None] * len(items)
    failed = None
    for k, (pid, r) in enumerate(procs):
        data = _read_all(r)
        os.close(r)
        os.waitpid(pid, 0)
        st, v = pickle.loads(data) if data else ("raised", "a process died")
        if st == "ok":
            res[k::n] = v
        else:
            failed = v
    if failed:
        raise RuntimeError(failed)
    return res
