"""C11: the solvers agree with each other, share one signature, and are listed where they belong."""
from collections import Counter
from answers import CONFIGS, MULTI_SOLVERS
from lattice import *


def run(ctx):
    n = ctx.pick(1200, 14000)
    probs = gen_lattice(ctx, n, ctx.seed + 11000, [0, 0, 0, 1, 2, 3, 5])
    ctx.say(f"{len(probs)} requests generated")
    plan = []
    for i, q in enumerate(probs):
        multi = q["req"]["revs"] > 0
        for s in range(14):
            if multi and s not in MULTI_SOLVERS and i % 8: continue
            if s == 3 and i % 3: continue
            for cfg in ((1, 2) if i % 2 else (1, 0)):
                if s in (2, 3, 5, 6) and cfg != 1 and i % 3: continue
                plan.append((i, s, cfg, True))
            if i % 6 == 3: plan.append((i, s, 1, False))
    reqs = [dict(lattice_request(probs[i], s, **CONFIGS[c]), compiled=comp) for i, s, c, comp in plan]
    out = [None] * len(plan)
    for comp in (True, False):
        idx = [k for k, p in enumerate(plan) if p[3] == comp]
        for k, o in zip(idx, execute(ctx.sc, [reqs[k] for k in idx], compiled=comp)): out[k] = o
        ctx.say(f"{len(idx)} calls {'compiled' if comp else 'interpreted'}")
    roster(ctx, probs, plan, out)
    per = {}
    for k, p in enumerate(plan):
        if not out[k].get("skipped"): per.setdefault(p[0], []).append(k)
    recs = sorted(per); tapes = []
    for i in recs:
        w = pack_slots([probs[i]["pick"][x] for x in LAT] + [0] * 4 + [len(per[i]), 0])
        for k in per[i]: w += pack_obs(plan[k][1], plan[k][2], out[k])
        tapes.append(hexlit(w))
    met, worst = Counter(), {}
    for st, idx in judge(ctx.sc, tapes, "agree"):
        for k, v in st["met"].items(): met[k] += v
        for k, v in st["worst"].items(): worst[k] = max(worst.get(k, 0), v)
        blame = Counter(); fails = [(f, per[recs[idx[f["rec"]]]]) for f in st["fails"]]
        for f, ks in fails:
            for j in {f["obs"], f["other"]}: blame[(f["rec"], plan[ks[j]][1])] += 1
        for f, ks in fails:      # the one which disagrees with most is named
            a, b = ks[f["obs"]], ks[f["other"]]
            if blame[(f["rec"], plan[b][1])] > blame[(f["rec"], plan[a][1])]: a, b = b, a
            got = [[unbits(w) for w in out[k]["w"]] if out[k].get("w") else f"{out[k].get('t')} {out[k].get('m')}" for k in (a, b)]
            i = plan[a][0]
            ctx.fail(f["clause"], who=NAMES[plan[a][1]], what=f"{tell(probs[i])}; settings {CONFIGS[plan[a][2]]}: {got[0]}" +
                     ("" if a == b else f"; {NAMES[plan[b][1]]} {CONFIGS[plan[b][2]]}: {got[1]}"), requests=[reqs[k] for k in {a, b}], outcomes=[out[k] for k in {a, b}], pick=probs[i]["pick"])
    compared = sum(v for k, v in met.items() if k < 1000) // 2
    ctx.say(f"{compared} pairs of answers compared, {len(ctx.fails)} rejected")
    ctx.coverage.update(evaluations=len(plan), distinct_nontrivial=len(probs),
        rule="a case is a request made of integers generated by the specification, put to every solver with several settings; none is repeated; all pairs of answers to it are compared",
        samples=[tell(q) for q in probs[:3]], pairs_compared=compared, solvers_inspected=14,
        comparisons={f"{NAMES[s]} settings {c}": met[c * 100 + s] for s in range(14) for c in CONFIGS if met[c * 100 + s]},
        refusals={f"{NAMES[s]} settings {c}": met[1000 + c * 100 + s] for s in range(14) for c in CONFIGS if met[1000 + c * 100 + s]},
        greatest_disagreement={f"{NAMES[s]} settings {c}": float(f"{worst[c * 100 + s] / 1e18:.1e}") for s in range(14) for c in CONFIGS if c * 100 + s in worst})


def roster(ctx, probs, plan, out):
    """What the package says about its solvers, against the specification and against what they just did."""
    r, = execute(ctx.sc, [dict(op="roster", solver="roster")], workers=1)
    if r.get("s"):
        ctx.fail("the lists of the package cannot be read", who="lamberthub", what=str(r), requests=[dict(op="roster", solver="roster")], outcomes=[r]); return
    L = r["lists"]
    if not r["same"]: ctx.fail("a listed solver is not the one of that name", who="lamberthub", what=str(L), requests=[dict(op="roster", solver="roster")], outcomes=[r])
    c = {n: Counter() for n in NAMES}
    for k, (i, s, cfg, comp) in enumerate(plan):
        m = "m" if probs[i]["req"]["revs"] else "d"
        c[NAMES[s]][m + "Asked"] += 1; c[NAMES[s]][m + "Got"] += out[k]["s"] == 0; c[NAMES[s]][m + "Refused"] += out[k]["s"] == 1
    B = lambda v: "true" if v else "false"
    rows = []
    names = list(dict.fromkeys(NAMES + [n for l in L.values() for n in l]))
    for n in names:
        ps = ",".join(f'{{ name: {json.dumps(p[0])}, kind: {p[1]}, has: {B(p[2])}, num: {p[3]}, value: {p[4]} }}' for p in r["sig"].get(n, []))
        k = c.get(n, Counter())
        rows.append(f'{{ name: {json.dumps(n)}, inAll: {L["ALL_SOLVERS"].count(n)}, zero: {L["ZERO_REV_SOLVERS"].count(n)}, multi: {L["MULTI_REV_SOLVERS"].count(n)}, '
                    f'robust: {L["ROBUST_SOLVERS"].count(n)}, nonrobust: {L["NON_ROBUST_SOLVERS"].count(n)}, params: [{ps}], dAsked: {k["dAsked"]}, dGot: {k["dGot"]}, '
                    f'mAsked: {k["mAsked"]}, mGot: {k["mGot"]}, mRefused: {k["mRefused"]} }}')
    text = (f'module rostertrace {{\n  import roster(SEEN=[{",".join(rows)}], LISTED=[{",".join(json.dumps(n) for n in L["ALL_SOLVERS"])}]).* from "roster"\n}}\n')
    st = quint_run(ctx.sc, "rostertrace", text, "rostertrace", len(names), 1)[-1]
    for f in st["fails"]:
        n = names[f["rec"]] if f["rec"] >= 0 else "ALL_SOLVERS"
        ctx.fail(f["clause"], who=n, what=f"lists {[k for k in L if n in L[k]]}; parameters {r['sig'].get(n)}; seen {dict(c.get(n, {}))}",
                 requests=[dict(op="roster", solver="roster")], outcomes=[r])
    ctx.say(f"{len(names)} solvers inspected")
