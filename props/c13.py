"""Threads that share grids, fields, tracers and configurations: seeded interleavings at source-line granularity"""
from sim.core import diff
from sim.sched import Baton

from . import ops as O

QUICK = (2600, 70)
THOROUGH = (400000, 780)

ENV = None
REF = {}
LONG = set()
SHORT = {}  # shared object -> short operations on it


def prepare():
    global ENV, REF
    alone = O.isolated()
    ENV = O.Env()
    REF = O.references(ENV.cold(), profile=True)
    REF.update({k: (v, REF[k][1]) for k, v in alone.items()})
    LONG.update(n for n in O.NAMES if REF[n][1].total > 40000)
    for n in O.NAMES:
        if REF[n][1].total < 2500 and n not in O.HEAVY:
            SHORT.setdefault(O.subject(n), []).append(n)


def choose(rng, near=None):
    names = O.NAMES
    if near is not None and rng.random() < 0.6:
        same = [n for n in names if O.subject(n) == O.subject(near)]
        names = same or names
    if rng.random() < 0.35:
        pre = rng.choice(["metric", "get_metric", "export", "remote", "make_maps", "lookup", "planes", "cached", "stencil"])
        names = [n for n in names if n.startswith(pre)] or names
    name = rng.choice(names)
    if name in LONG and rng.random() < 0.8:
        return choose(rng, near)
    return name


def point(rng):
    return [round(rng.random(), 6), rng.choice([1, 2, 3, 4, -1, -2, -3, -4]) if rng.random() < 0.4 else round(rng.random(), 6)]


def visitors(rng):
    """One operation, and short ones on the same objects that run completely at points inside it"""
    first = choose(rng)
    if rng.random() < 0.3:
        first = rng.choice([q for q in O.NAMES if q.startswith(("metric", "get_metric", "export"))])
    same = [q for q in O.LIGHT + [e for e in O.NAMES if e.startswith("export")] * 3 if O.subject(q) == O.subject(first)]
    rest = [rng.choice(same) if same and rng.random() < 0.85 else rng.choice(O.LIGHT) for _ in range(rng.choice([3, 5, 8]))]
    return dict(ops=[first] + rest, switches=[[0] + point(rng) + [k + 1] for k in range(len(rest))], cold=rng.random() < 0.6, walk=None)


def short(rng):
    """Two or three short operations on one object"""
    m = rng.choice(sorted(SHORT))
    if rng.random() < 0.35:
        m = rng.choice([q for q in sorted(SHORT) if q.startswith(("web", "fsc", "w7x"))] or [m])
    pool = SHORT[m]
    n = rng.choice([2, 2, 3])
    ops = [rng.choice(pool) for _ in range(n)]
    if rng.random() < 0.7:
        # the others run completely somewhere inside the first
        sw = [[0, *point(rng), k] for k in range(1, n)]
    else:
        sw = [[0 if k == 0 else rng.randrange(n), *point(rng), rng.randrange(n)] for k in range(rng.choice([2, 3, 5]))]
    return dict(ops=ops, switches=sw, cold=rng.random() < 0.6, walk=[rng.randrange(10**6), [rng.choice([0.02, 0.1, 0.5]) for _ in range(n)]] if rng.random() < 0.2 else None)


def gen(rng, tier):
    if rng.random() < 0.55:
        return dict(episodes=[short(rng) for _ in range(12)])
    if rng.random() < 0.12:
        # files written next to each other
        pool = [q for q in O.NAMES if q.startswith("export")]
        ops = [rng.choice(pool) for _ in range(rng.choice([2, 2, 3]))]
        return dict(ops=ops, switches=[[0] + point(rng) + [k + 1] for k in range(len(ops) - 1)], cold=rng.random() < 0.6, walk=None)
    if rng.random() < 0.45:
        return visitors(rng)
    n = rng.choice([2, 2, 2, 3])
    if rng.random() < 0.3:
        # one grid or tracer, everything that uses what it remembers
        m = rng.choice(["slab", "pinch", "straight", "open", "shared", "ellipse2", "web0", "fsc0"])
        pool = [q for q in O.NAMES if O.subject(q) == m and q.startswith(("metric", "get_metric", "export", "remote", "cached"))]
        ops = [rng.choice(pool) for _ in range(n)]
    else:
        ops = [choose(rng)]
    while len(ops) < n:
        ops.append(ops[0] if rng.random() < 0.15 else choose(rng, ops[0]))
    m = rng.choice([1, 2, 3, 4, 6, 9])
    sw = [[0 if k == 0 else rng.randrange(n), *point(rng), rng.randrange(n)] for k in range(m)]
    walk = None
    if rng.random() < 0.4:
        walk = [rng.randrange(10**6), [rng.choice([0.002, 0.02, 0.1, 0.5]) for _ in range(n)]]
    return dict(ops=ops, switches=sw, cold=rng.random() < 0.6, walk=walk)


def run(plan, ctx):
    taken = sum(episode(p, ctx) for p in plan.get("episodes", [plan]))
    ctx.nontrivial = taken > 0


def episode(plan, ctx):
    ops = plan["ops"]
    if plan["cold"]:
        ENV.cold()
    before = ENV.visible()
    keeps, raws = [O.Keeper() for _ in ops], []
    sw = []
    for th, u, v, to in plan["switches"]:
        if th >= len(ops):
            continue
        prof = REF[ops[th]][1]
        pt = prof.pick(u, v)
        if pt is None:
            continue
        to %= len(ops)
        sw.append((th, pt[0], pt[1], (th + 1) % len(ops) if to == th else to))
    with O.services() as w:
        b = Baton([(lambda n=n, k=k: O.perform(n, ENV, k, raws)) for n, k in zip(ops, keeps)], sw, plan.get("walk") and (plan["walk"][0], (plan["walk"][1] * len(ops))[:len(ops)]))
        res = b.run()
    ctx.simtime += w.now
    ctx.faults["thread_switch"] += len(b.taken)
    if b.unblocked:
        ctx.probes["blocked_by_lock"] += b.unblocked
    for t in b.taken[:2000]:
        ctx.log(*t)
        ctx.state(ops[t[0]], t[1], t[2], ops[t[3]])
    for k, (name, (st, val)) in enumerate(zip(ops, res)):
        others = [n for j, n in enumerate(ops) if j != k]
        ctx.check(st == "ok", "disturbed", lambda: f"{name} fails while {others} run in other threads: {type(val).__name__}: {val}")
        d = diff(REF[name][0], val)
        ctx.check(d is None, "disturbed", f"{name} while {others} run in other threads: {d}")
        d = keeps[k].changed()
        ctx.check(d is None, "argument-changed", f"{name}: an argument was changed: {d}")
        ctx.log(name, st)
        ctx.probes[name.split("/")[0]] += 1
    for name, r, p in raws:
        d = diff(p, O.plain(r))
        ctx.check(d is None, "result-changed", f"what {name} returned was changed later ({ops} ran concurrently): {d}")
    d = diff(before, ENV.visible())
    ctx.check(d is None, "object-changed", f"after {ops} ran concurrently: {d}")
    # and everything still works alone
    for name in sorted(set(ops))[:1]:
        with O.services():
            d = diff(REF[name][0], O.perform(name, ENV))
        ctx.check(d is None, "disturbed-later", f"{name} after {ops} ran concurrently: {d}")
    return len(b.taken)
