"""Histories of operations on shared objects, some of them interrupted: every other one gives what it gives alone"""
import sys

from sim.core import diff
from sim.sched import EXCEPTIONS, LineFault, make_exception

from . import ops as O

QUICK = (2200, 48)
THOROUGH = (400000, 780)

ENV = None
REF = {}
LONG = set()


def prepare():
    global ENV, REF
    alone = O.isolated()
    ENV = O.Env()
    REF = O.references(ENV.cold(), profile=True)
    REF.update({k: (v, REF[k][1]) for k, v in alone.items()})
    LONG.update(n for n in O.NAMES if REF[n][1].total > 40000)


def choose(rng, near=None):
    names = O.NAMES
    if near is not None and rng.random() < 0.15:
        names = [n for n in names if n.split("/")[0] == near.split("/")[0]]
    elif near is not None and rng.random() < 0.6:
        names = [n for n in names if O.subject(n) == O.subject(near)] or names
    name = rng.choice(names)
    if name in LONG and rng.random() < 0.8:
        return choose(rng, near)
    return name


def gen(rng, tier):
    steps = []
    near = None
    for _ in range(rng.choice([2, 3, 4, 5, 8])):
        name = near if near and rng.random() < 0.2 else choose(rng, near)
        fault = None
        if rng.random() < 0.45:
            v = rng.choice([1, 2, 3, 4, -1, -2, -3, -4]) if rng.random() < 0.3 else round(rng.random(), 6)
            fault = dict(u=round(rng.random(), 6), v=v, exc=rng.choice(EXCEPTIONS))
        steps.append(dict(op=name, fault=fault))
        near = name
    # at the end the interrupted ones, and a neighbour, undisturbed
    hit = [s["op"] for s in steps if s["fault"]]
    steps += [dict(op=n, fault=None) for n in hit[-2:]]
    steps.append(dict(op=choose(rng, near), fault=None))
    return dict(steps=steps, cold=rng.random() < 0.5)


def run(plan, ctx):
    if plan["cold"]:
        ENV.cold()
    history = []
    before = ENV.visible()
    raws = []
    with O.services() as w:
        for k, st in enumerate(plan["steps"]):
            name, f = st["op"], st["fault"]
            keep = O.Keeper()
            lf = None
            pt = REF[name][1].pick(f["u"], f["v"]) if f else None
            if pt:
                lf = LineFault(pt[0], pt[1], make_exception(f["exc"]))
            what = f"step {k}, {name}" + (f" after {history[-6:]}" if history else "")
            err = None
            try:
                if lf:
                    with lf:
                        got = O.perform(name, ENV, keep)
                else:
                    got = O.perform(name, ENV, keep, raws)
            except BaseException as e:
                err = e
            finally:
                sys.settrace(None)
            fired = lf is not None and lf.fired
            if fired:
                ctx.faults["exception_" + f["exc"]] += 1
            d = keep.changed()
            ctx.check(d is None, "argument-changed", f"{what}: an argument was changed: {d}")
            if err is not None:
                ctx.check(fired, "history-dependent", lambda: f"{what} fails: {type(err).__name__}: {err}")
                history.append(f"{name} interrupted by {f['exc']} in {lf.name}:{lf.where}")
            else:
                d = diff(REF[name][0], got)
                ctx.check(d is None, "history-dependent", f"{what}: {d}")
                history.append(name)
            ctx.log(name, fired, type(err).__name__, lf.where if fired else None)
            ctx.state(name, plan["steps"][k - 1]["op"] if k else "", bool(fired))
            ctx.probes[name.split("/")[0]] += 1
    for name, r, p in raws:
        d = diff(p, O.plain(r))
        ctx.check(d is None, "result-changed", f"what {name} returned was changed by a later operation ({history}): {d}")
    d = diff(before, ENV.visible())
    ctx.check(d is None, "object-changed", f"after {history}: {d}")
    ctx.simtime += w.now
    ctx.nontrivial = True
