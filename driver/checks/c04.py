"""C04: multi-revolution requests are answered above the minimum time and refused below it."""
from answers import *


def run(ctx):
    n = ctx.pick(1500, 16000)
    cl = MULTI + [30, 31, 32, 33, 34, 40, 40, 40, 40, 40]
    probs, steps = generate(ctx.sc, cl, n, ctx.seed + 4000, maxrev=12, units=range(10))
    more, st2 = generate(ctx.sc, cl, n // 3, ctx.seed + 4500, maxrev=2, units=range(10))
    probs += more; steps += st2
    ctx.say(f"{len(probs)} problems generated and certified")
    plan = []
    for i, q in enumerate(probs):
        for s in MULTI_SOLVERS:
            for c in ((0, 2) if q["prob"]["cls"] != 40 else (0, 1, 2)):
                plan.append((i, s, c, True))
            if i % 4 == 2: plan.append((i, s, 0, False))
    reqs, out = run_plan(ctx, probs, plan)
    both = len(plan)
    # below the minimum time, whichever the path
    for k in range(both):
        i, s, c, comp = plan[k]
        if probs[i]["prob"]["cls"] == 40 and c == 0 and comp: plan.append((i, s, 0, True))
    extra = []
    for i, s, c, comp in plan[both:]:
        r = request(probs[i], s); r["opts"]["is_low_path"] = not r["opts"]["is_low_path"]; extra.append(r)
    out += execute(ctx.sc, extra, compiled=True); reqs += extra
    worst, met = judge_plan(ctx, probs, plan, reqs, out, 3)
    coverage(ctx, probs, steps, plan, met, worst)
