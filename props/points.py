"""Start points and planes for tracing calls, from a JSON description"""
import numpy as np

LAYOUTS = ["C", "C", "C", "F", "strided", "list", "scalar-x", "scalar-z", "int", "int-x", "int-z", "readonly", "reversed"]
SHAPES = [[1], [2], [3], [5], [7], [12], [13], [24], [30], [3, 4], [1, 7], [5, 1], [4, 6], [2, 3, 4], [37], [6, 8]]


def gen_points(rng, shapes=SHAPES, layouts=LAYOUTS):
    return dict(shape=rng.choice(shapes), seed=rng.randrange(10**6), layout=rng.choice(layouts), dup=rng.random() < 0.15)


def make_points(s):
    """x, z as given to the code under test, and the plain arrays they stand for"""
    r = np.random.default_rng(s["seed"])
    shape = tuple(s["shape"])
    x = r.uniform(5.0, 6.2, shape)
    z = r.uniform(-0.8, 0.8, shape)
    if s.get("dup") and x.size > 2:
        x.flat[-1], z.flat[-1] = x.flat[0], z.flat[0]
    lay = s["layout"]
    if lay == "F":
        x, z = np.asfortranarray(x), np.asfortranarray(z)
    elif lay == "strided":
        bx, bz = np.full(shape[:-1] + (shape[-1] * 2,), 99.0), np.full(shape[:-1] + (shape[-1] * 2,), 99.0)
        bx[..., ::2], bz[..., ::2] = x, z
        x, z = bx[..., ::2], bz[..., ::2]
    elif lay == "reversed":
        x, z = x[::-1], z[::-1]
    elif lay == "list":
        return x.tolist(), z.tolist(), np.array(x), np.array(z)
    elif lay == "scalar-x":
        return float(x.flat[0]), z, np.full(shape, x.flat[0]), np.array(z)
    elif lay == "scalar-z":
        return x, float(z.flat[0]), np.array(x), np.full(shape, z.flat[0])
    elif lay == "int-z":
        z = r.integers(-1, 2, shape)
        return float(x.flat[0]), z, np.full(shape, x.flat[0]), np.array(z, dtype=float)
    elif lay == "int-x":
        x = r.integers(5, 7, shape)
        return x, float(z.flat[0]), np.array(x, dtype=float), np.full(shape, z.flat[0])
    elif lay == "int":
        x = r.integers(5, 7, shape)
        z = r.integers(-1, 2, shape)
    elif lay == "readonly":
        x.flags.writeable = False
        z.flags.writeable = False
    return x, z, np.array(x, dtype=float), np.array(z, dtype=float)


def gen_planes(rng, nmax=5, monotone=True):
    n = rng.choice([2, 2, 2, 3, 4, nmax])
    y0 = round(rng.choice([0.0, rng.uniform(-3, 7), rng.uniform(0, 1.3)]), 6)
    sign = rng.choice([1, -1])
    ys = [y0]
    for _ in range(n - 1):
        ys.append(round(ys[-1] + sign * rng.uniform(0.05, 0.6), 6))
    if not monotone and n > 2:
        # any order on one side of the start plane, planes more than once, back at the start
        ys[2:] = [rng.choice(ys + [round(y0 + sign * rng.uniform(0.01, 1.5), 6)] * 3) for _ in ys[2:]]
    return dict(y=ys, kind=rng.choice(["list", "array", "tuple", "array"]))


def make_planes(s):
    y = s["y"]
    return {"list": list, "tuple": tuple, "array": np.array}[s["kind"]](y)


def snapshot(*objs):
    import copy

    return [copy.deepcopy(o) for o in objs]


def unchanged(before, after):
    for b, a in zip(before, after):
        if isinstance(b, np.ndarray):
            if not (isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")):
                return False
        elif b != a:
            return False
    return True
