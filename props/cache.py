"""Questions for the trace cache and the tracers behind it (C04, C05)"""
import hashlib

import numpy as np

from sim.boot import zb

NAMES = [None, None, "c-%s", "sub/c-%s.txt", "c-%s.dat", "%s"]


def val(rng):
    return rng.choice([lambda: round(rng.uniform(-2, 2), 3), lambda: rng.uniform(0.5, 6.5), lambda: float(rng.randrange(-3, 13)), lambda: rng.uniform(-1, 1) * 10.0 ** rng.randrange(-9, 3)])()


def gen_question(rng, big=False):
    u = rng.random()
    if big or u < 0.08:
        n = rng.choice([300, 1001, 1500])
        base = rng.randrange(10**6)
        q = dict(n=n, base=base, edit=[], y=[val(rng) for _ in range(2)], opts={}, shape=None, how="C")
    else:
        n = rng.choice([1, 1, 2, 2, 3, 4, 6, 12])
        q = dict(x=[val(rng) for _ in range(n)], z=[val(rng) for _ in range(n)], y=[val(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))], opts={}, shape=None, how="C")
    if rng.random() < 0.35:
        q["opts"] = gen_opts(rng)
    return q


def gen_opts(rng):
    o = {}
    for k in rng.sample(["rtol", "stepsize", "eps", "chunk", "retry"], rng.choice([1, 1, 2])):
        o[k] = rng.choice([None, 1e-5, 1e-8, 0.1, 1, 12, 2.5])
    return o


def vary(rng, q):
    """A question that looks much like q"""
    import copy

    q = copy.deepcopy(q)
    how = rng.choice(["ulp", "ulp", "tiny", "swapel", "swapxz", "revy", "regroup", "digits", "sign", "opt", "optname", "shape", "order", "y", "dropy", "addopt", "revpts", "dtype", "same"])
    if "n" in q:
        if how in ("ulp", "tiny", "sign", "swapel", "digits"):
            q["edit"].append([rng.choice("xz"), rng.choice([0, q["n"] // 2, q["n"] - 1, rng.randrange(q["n"])]), rng.choice([1e-16, 1e-9, 1e-3, 1.0])])
        elif how == "y":
            q["y"][-1] += rng.choice([1e-15, 1e-6, 1.0])
        elif how in ("opt", "addopt", "optname"):
            q["opts"] = gen_opts(rng)
        return q
    n = len(q["x"])
    which = rng.choice(["x", "z", "y"])
    lst = q[which]
    i = rng.randrange(len(lst))
    if how == "ulp":
        lst[i] = float(np.nextafter(lst[i], lst[i] + rng.choice([-1, 1])))
    elif how == "tiny":
        lst[i] += rng.choice([1e-13, 1e-10, 1e-7, 1e-5]) * (abs(lst[i]) or 1.0)
    elif how == "swapel" and n > 1:
        lst = q[rng.choice("xz")]
        a, b = rng.sample(range(n), 2)
        lst[a], lst[b] = lst[b], lst[a]
    elif how == "swapxz":
        q["x"], q["z"] = q["z"], q["x"]
    elif how == "revy":
        q["y"] = q["y"][::-1]
    elif how == "revpts":
        q["x"], q["z"] = q["x"][::-1], q["z"][::-1]
    elif how == "regroup":
        allv = q["x"] + q["z"] + q["y"]
        k = rng.randrange(1, max(2, (len(allv) - 1) // 2 + 1))
        if 2 * k < len(allv):
            q["x"], q["z"], q["y"] = allv[:k], allv[k:2 * k], allv[2 * k:]
    elif how == "digits":
        # 1.0, 12.0 and 1.01, 2.0 read the same without a separator
        a, b = rng.randrange(1, 9), rng.randrange(1, 9)
        d = rng.randrange(1, 9)
        names = rng.choice([("x", "z"), ("z", "y"), ("x", "x"), ("y", "y")])
        if names[0] == names[1]:
            lst = q[names[0]]
            if len(lst) > 1:
                k = rng.randrange(len(lst) - 1)
                lst[k], lst[k + 1] = float(a), float(f"{d}{b}.0")
                q = [q, copy.deepcopy(q)]
                lst = q[1][names[0]]
                lst[k], lst[k + 1] = float(f"{a}.0{d}"), float(b)
        else:
            q[names[0]][-1], q[names[1]][0] = float(a), float(f"{d}{b}.0")
            q = [q, copy.deepcopy(q)]
            q[1][names[0]][-1], q[1][names[1]][0] = float(f"{a}.0{d}"), float(b)
    elif how == "sign":
        lst[i] = -lst[i]
    elif how == "opt":
        q["opts"] = gen_opts(rng)
    elif how == "optname" and q["opts"]:
        k = sorted(q["opts"])[0]
        v = q["opts"].pop(k)
        q["opts"][rng.choice([o for o in ("rtol", "stepsize", "eps", "chunk", "retry") if o not in q["opts"]])] = v
    elif how == "addopt":
        q["opts"] = dict(q["opts"], rtol=rng.choice([None, 1e-7]))
    elif how == "shape":
        q["shape"] = rng.choice([None, "col", "row", "2d"])
    elif how == "order":
        q["how"] = rng.choice(["C", "F", "strided", "readonly"])
    elif how == "dtype":
        q["how"] = rng.choice(["C", "f4"])
    elif how == "y":
        q["y"] = q["y"] + [val(rng)]
    elif how == "dropy" and len(q["y"]) > 1:
        q["y"] = q["y"][:-1]
    return q


def questions(rng, n, big=False):
    out = [gen_question(rng, big)]
    while len(out) < n:
        q = vary(rng, rng.choice(out)) if rng.random() < 0.75 else gen_question(rng, big)
        out.extend(q if isinstance(q, list) else [q])
    return out


def arrays(q):
    if "n" in q:
        r = np.random.default_rng(q["base"])
        x, z = r.uniform(4, 6, q["n"]), r.uniform(-1, 1, q["n"])
        for which, i, d in q["edit"]:
            a = x if which == "x" else z
            a[i] = np.nextafter(a[i], 9) if d == 1e-16 else a[i] + d
    else:
        x, z = np.array(q["x"], dtype=float), np.array(q["z"], dtype=float)
    n = x.size
    if q["shape"] == "col":
        x, z = x.reshape(n, 1), z.reshape(n, 1)
    elif q["shape"] == "row":
        x, z = x.reshape(1, n), z.reshape(1, n)
    elif q["shape"] == "2d" and n % 2 == 0:
        x, z = x.reshape(2, -1), z.reshape(2, -1)
    if q["how"] == "F":
        x, z = np.asfortranarray(x), np.asfortranarray(z)
    elif q["how"] == "strided":
        bx, bz = np.full(x.shape + (2,), 7.0), np.full(x.shape + (2,), 7.0)
        bx[..., 0], bz[..., 0] = x, z
        x, z = bx[..., 0], bz[..., 0]
    elif q["how"] == "f4":
        x, z = x.astype("f4"), z.astype("f4")
    elif q["how"] == "readonly":
        x.flags.writeable = z.flags.writeable = False
    return x, z, list(q["y"])


def ident(q):
    """Two questions with the same ident are the same question beyond doubt"""
    x, z, y = arrays(q)
    return hashlib.md5(repr((x.tolist(), z.tolist(), y, x.dtype.str, x.shape, sorted((k, v) for k, v in q["opts"].items()))).encode()).hexdigest()


class Stub:
    """A tracer whose answer depends on every bit of the question"""

    def __init__(self):
        self.calls = 0
        self.fail_at = set()
        self.bad = False

    def answer(self, x, z, y, kw):
        x64, z64 = np.asarray(x, dtype=float) + 0.0, np.asarray(z, dtype=float) + 0.0
        y64 = np.asarray(y, dtype=float) + 0.0
        opts = sorted((k, float(v)) for k, v in kw.items() if v is not None)
        h = hashlib.sha256(b"|".join([x64.ravel().tobytes(), z64.ravel().tobytes(), y64.tobytes(), repr(opts).encode()])).digest()
        r = np.random.default_rng(list(h[:16]))
        out = r.normal(0, 1, (len(y64),) + np.shape(x64) + (2,)) * 10.0 ** r.integers(-12, 12, (len(y64),) + np.shape(x64) + (2,))
        if h[20] < 20:
            out.flat[0] = np.nan
        return out

    def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
        self.calls += 1
        if self.calls in self.fail_at:
            raise RuntimeError("simulated tracer failure")
        return self.answer(x_values, z_values, y_values, kwargs)


class Real:
    """A real zoidberg tracer"""

    def __init__(self, kind):
        f = zb.field.Slab(By=1.0, Bz=0.3, xcentre=2.0, Bzprime=0.4)
        self.t = {"real": zb.fieldtracer.FieldTracer, "reversible": zb.fieldtracer.FieldTracerReversible}[kind](f)
        self.calls = 0
        self.fail_at = set()

    def answer(self, x, z, y, kw):
        return self.t.follow_field_lines(np.array(x), np.array(z), list(y), **kw)

    def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
        self.calls += 1
        if self.calls in self.fail_at:
            raise RuntimeError("simulated tracer failure")
        return self.t.follow_field_lines(x_values, z_values, y_values, **kwargs)


def make_tracer(kind):
    return Stub() if kind == "stub" else Real(kind)


def make_cache(tracer, name):
    return zb.fieldtracer.CachingFieldTracer(tracer) if name is None else zb.fieldtracer.CachingFieldTracer(tracer, cachename=name)
