"""C10: answers respect the symmetries of the two-body problem."""
from answers import *


def pairs(ctx, classes, count, seed, maxrev, tag):
    per = -(-count // CPUS)

    def one(k):
        text = (f"module {tag}{k} {{ import symgen(C0=[{','.join(map(str, classes))}], F0={k * per}, M0={maxrev}, U0=[{','.join(map(str, range(8)))}], "
                f"O0=[{','.join(map(str, ORIENT))}]).* from \"symgen\" }}\n")
        st = quint_run(ctx.sc, f"{tag}{k}", text, f"{tag}{k}", per + 1, seed * 1000 + k, ["closed"], step="pair")
        return [dict(pick=a["pick"], prob=a["prob"], word=a["word"], image=b["moved"]) for a, b in zip(st[1:], st[2:])]
    out = [q for part in parallel(one, range(CPUS)) for q in part]
    return [q for q in out if q["prob"]["ok"] and q["image"]["ok"]], len(out)


def run(ctx):
    n = ctx.pick(1500, 18000)
    probs, steps = pairs(ctx, DIRECT, n * 2 // 3, ctx.seed + 10000, 1, "gen")
    more, st2 = pairs(ctx, MULTI, n // 3, ctx.seed + 10500, 12, "genm")
    probs += more; steps += st2
    ctx.say(f"{len(probs)} problems and images generated and certified")
    plan, reqs = [], []           # two requests for each entry
    for i, q in enumerate(probs):
        for s in (MULTI_SOLVERS if q["prob"]["revs"] else range(14)):
            if s == 3 and i % 3: continue
            for cfg in (1, 2) if s in (0, 1, 4, 8, 9, 10, 11, 12, 13) and i % 2 else (1,):
                for comp in (True, False) if i % 8 == 2 and cfg == 1 else (True,):
                    plan.append((i, s, cfg, comp))
                    for p in (q["prob"], q["image"]): reqs.append(dict(request(dict(prob=p), s, **CONFIGS[cfg]), compiled=comp))
    out = [None] * len(reqs)
    for comp in (True, False):
        idx = [k for k, r in enumerate(reqs) if r["compiled"] == comp]
        for k, o in zip(idx, execute(ctx.sc, [reqs[k] for k in idx], compiled=comp)): out[k] = o
        ctx.say(f"{len(idx)} calls {'compiled' if comp else 'interpreted'}")
    per = {}
    for k, (i, s, c, comp) in enumerate(plan):
        if not out[2 * k].get("skipped") and not out[2 * k + 1].get("skipped"): per.setdefault(i, []).append(k)
    recs = sorted(per); tapes = []
    for i in recs:
        w = pack_slots([probs[i]["pick"][x] for x in SLOTS] + [2 * len(per[i]), probs[i]["word"]])
        for k in per[i]:
            for h in (2 * k, 2 * k + 1): w += pack_obs(plan[k][1], plan[k][2], out[h])
        tapes.append(hexlit(w))
    met, worst = Counter(), {}
    for st, idx in judge(ctx.sc, tapes, "symjudge"):
        for k, v in st["met"].items(): met[k] += v
        for k, v in st["worst"].items(): worst[k] = max(worst.get(k, 0), v)
        for f in st["fails"]:
            i = recs[idx[f["rec"]]]; k = per[i][f["obs"] // 2]; h = 2 * k
            got = [[unbits(w) for w in o["w"]] if o.get("w") else o.get("m") for o in out[h:h + 2]]
            ctx.fail(f["clause"], who=NAMES[plan[k][1]], what=f"{describe(probs[i])}; word {probs[i]['word']}; settings {CONFIGS[plan[k][2]]}; {'compiled' if plan[k][3] else 'interpreted'}; {got}",
                     requests=reqs[h:h + 2], outcomes=out[h:h + 2], pick=probs[i]["pick"], word=probs[i]["word"])
    ctx.say(f"{sum(met.values())} pairs judged, {len(ctx.fails)} rejected")
    kind = {0: "turns and mirrors", 1: "changes of units", 2: "motions backwards"}
    ctx.coverage.update(evaluations=2 * sum(met.values()), distinct_nontrivial=sum(v for k, v in met.items() if k // 100 % 10 == 2),
        rule="a case is a pair of calls of one solver with the same settings: a generated problem and its image under a word of up to three letters; counted as non-trivial if both were answered",
        samples=[dict(problem=describe(q), word=q["word"], r1=vec(q["prob"]["r1"]), image_r1=vec(q["image"]["r1"]), image_tof=to_float(q["image"]["tof"])) for q in probs[:3]],
        problems=len(probs), generator_steps=steps,
        pairs={NAMES[s]: {f"{kind[a]}, {n} answered": met[(a * 10 + n) * 100 + s] for a in kind for n in range(3) if met[(a * 10 + n) * 100 + s]} for s in range(14)},
        greatest_difference={f"{NAMES[s]} settings {c}, {kind[a]}": float(f"{worst[(a * 100 + c) * 100 + s] / 1e18:.1e}") for s in range(14) for c in CONFIGS for a in kind if (a * 100 + c) * 100 + s in worst})
