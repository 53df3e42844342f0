from . import web

QUICK = (4000, 45)
THOROUGH = (400000, 780)


def gen(rng, tier):
    plan = web.gen(rng, tier)
    plan["down"] = None
    for c in plan["calls"]:
        c["interrupt"] = None
    return plan


def run(plan, ctx):
    web.run(plan, ctx, "C01")
