"""C03: what a solver returns for a multi-revolution transfer completes the revolutions on the requested path."""
from answers import *


def run(ctx):
    n = ctx.pick(1800, 20000)
    probs, steps = generate(ctx.sc, MULTI, n, ctx.seed + 3000, maxrev=20, units=range(10))
    more, st2 = generate(ctx.sc, MULTI, n // 3, ctx.seed + 3500, maxrev=2, units=range(10))
    probs += more; steps += st2
    ctx.say(f"{len(probs)} problems generated and certified")
    plan = []
    for i in range(len(probs)):
        for s in MULTI_SOLVERS:
            plan.append((i, s, 0, True))
            plan.append((i, s, 1, True))
            if s == 11: plan.append((i, s, 2, True))
            if i % 4 == 2: plan.append((i, s, 0, False))
    reqs, out = run_plan(ctx, probs, plan)
    worst, met = judge_plan(ctx, probs, plan, reqs, out, 1)
    coverage(ctx, probs, steps, plan, met, worst)
