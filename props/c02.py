from . import web

QUICK = (4000, 45)
THOROUGH = (400000, 780)
gen = web.gen


def run(plan, ctx):
    web.run(plan, ctx, "C02")
