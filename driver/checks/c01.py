"""C01: what a solver returns for a direct transfer is the solution."""
from answers import *


def run(ctx):
    n = ctx.pick(2000, 24000)
    probs, steps = generate(ctx.sc, DIRECT, n, ctx.seed, units=range(10))
    ctx.say(f"{len(probs)} problems generated and certified")
    plan = []
    for i in range(len(probs)):
        for s in range(14):
            if s != 3 or i % 3 == 0: plan.append((i, s, 0, True))
            if s != 3 or i % 6 == 1: plan.append((i, s, 1, True))
            if i % 4 == 2 and (s != 3 or i % 24 == 2): plan.append((i, s, 0, False))
    reqs, out = run_plan(ctx, probs, plan)
    worst, met = judge_plan(ctx, probs, plan, reqs, out, 1)
    coverage(ctx, probs, steps, plan, met, worst)
