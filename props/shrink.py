"""Smaller plans to try when minimising a violation (no imports of the code under test)"""
import copy


def _paths(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        yield path, x
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))


def _get(x, path):
    for k in path:
        x = x[k]
    return x


# lists whose length carries meaning and must not be cut
FIXED = {"y", "shape", "args", "rng", "requests", "questions", "objects", "dims", "x", "z", "edit", "walk", "poison"}
DICTS = {"faults"}


def candidates(prop, plan):
    """Cut lists and fault tables in halves and single items, then simplify options to None"""
    for path, lst in list(_paths(plan)):
        if path and path[-1] in FIXED or (path and isinstance(path[-1], int)):
            continue
        n = len(lst)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                q = copy.deepcopy(plan)
                _get(q, path)[i:i + size] = []
                yield q
            size //= 2
        if n == 1:
            q = copy.deepcopy(plan)
            del _get(q, path)[:]
            yield q

    def dicts(x, path=()):
        if isinstance(x, dict):
            for k in sorted(x):
                if k in DICTS and isinstance(x[k], dict):
                    yield path + (k,)
                yield from dicts(x[k], path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                yield from dicts(v, path + (i,))

    for path in list(dicts(plan)):
        for k in sorted(_get(plan, path)):
            q = copy.deepcopy(plan)
            del _get(q, path)[k]
            yield q

    def leaves(x, path=()):
        if isinstance(x, dict):
            for k in sorted(x):
                yield from leaves(x[k], path + (k,))
        elif isinstance(x, list):
            if path and path[-1] == "shape":
                yield path, x
                return
            for i, v in enumerate(x):
                if isinstance(v, (dict, list)):
                    yield from leaves(v, path + (i,))
        else:
            yield path, x

    for path, v in list(leaves(plan)):
        name = path[-1]
        new = SIMPLE.get(name, [])
        for nv in new:
            if v == nv:
                break
            if name == "kind" and v not in ("array", "tuple"):
                break
            q = copy.deepcopy(plan)
            _get(q, path[:-1])[name] = nv
            yield q


SIMPLE = {
    "layout": ["C"], "dup": [False], "shape": [[2], [3], [5]], "chunk": [None, 1, 2], "retry": [None, 1], "timeout": [None, 5.0], "run_timeout": [None],
    "stepsize": [None], "rtol": [None], "latency": ["const"], "latscale": [0.5], "interrupt": [None], "kind": ["list"], "cfg": ["id"],
    "down": [None], "walk": [None], "forward": [True], "seed": [0], "configId": [0],
}
