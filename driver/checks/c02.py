"""C02: ordinary direct transfers are answered."""
from answers import *

ROBUST = [4, 5, 8, 10, 11, 12, 13]


def run(ctx):
    n = ctx.pick(2400, 30000)
    probs, steps = generate(ctx.sc, DIRECT + [25], n, ctx.seed + 7000, units=range(10))
    ctx.say(f"{len(probs)} problems generated and certified")
    plan = []
    for i in range(len(probs)):
        for s in range(14):
            if s in ROBUST:
                plan.append((i, s, 0, True))
                if s == 13: plan.append((i, s, 2, True))
                if i % 6 == 2: plan.append((i, s, 0, False))
            elif s != 3 or i % 3 == 0:
                plan.append((i, s, 2, True))
                if i % 12 == 4: plan.append((i, s, 2, False))
    reqs, out = run_plan(ctx, probs, plan)
    worst, met = judge_plan(ctx, probs, plan, reqs, out, 2)
    coverage(ctx, probs, steps, plan, met, worst)
