"""C05: the requested sense of motion decides the side of the transfer."""
from answers import *

SENSES = (0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9)


def run(ctx):
    n = ctx.pick(1500, 16000)
    probs, steps = generate(ctx.sc, [0, 1, 5, 8, 9, 12, 13, 14, 15, 16, 17], n * 2 // 3, ctx.seed + 5000, units=range(10), orient=SENSES)
    more, st2 = generate(ctx.sc, MULTI, n // 3, ctx.seed + 5500, maxrev=4, units=range(10), orient=SENSES, tag="genm")
    probs += more; steps += st2
    ctx.say(f"{len(probs)} problems generated and certified")
    plan, ask = [], []
    for i, q in enumerate(probs):
        multi = q["prob"]["revs"] > 0
        for s in (MULTI_SOLVERS if multi else range(14)):
            if s == 3 and i % 3: continue
            for pro in (True, False):
                plan.append((i, s, 1, True)); ask.append(pro)
                if i % 6 == 1: plan.append((i, s, 1, False)); ask.append(pro)
    reqs = []
    for (i, s, c, comp), pro in zip(plan, ask):
        r = request(probs[i], s, **CONFIGS[c]); r["opts"]["is_prograde"] = pro; reqs.append(r)
    out = execute_plan(ctx, plan, reqs)
    worst, met = judge_plan(ctx, probs, plan, reqs, out, 4, note=lambda k: int(ask[k]))
    coverage(ctx, probs, steps, plan, met, {})
