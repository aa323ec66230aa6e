"""C08: a call converges within its budget or raises; full output and tolerances."""
from answers import *

BUDGETS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 25, 30, 35, 50, 100, 200, 300]
TOLS = ["1e-3", "1e-5", "1e-7", "1e-9", "1e-11"]
EASY = [0, 1, 2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 25]


def run(ctx):
    n = ctx.pick(120, 1600)
    probs, steps = generate(ctx.sc, EASY, n * 7 // 10, ctx.seed + 8000, units=range(10))
    more, st2 = generate(ctx.sc, MULTI, n * 3 // 10, ctx.seed + 8500, maxrev=6, units=range(10), tag="genm")
    probs += more; steps += st2
    ctx.say(f"{len(probs)} problems generated and certified")
    recs, reqs = [], []        # a record: problem, list of (request, settings, position)
    for i, q in enumerate(probs):
        for s in (MULTI_SOLVERS if q["prob"]["revs"] else range(14)):
            if s == 3 and i % 12: continue
            for cfg, opts in ((0, {}), (1, dict(atol=hexf(1e-11), rtol=hexf(1e-11))), (4, None)):
                if cfg == 4 and i % 2: continue
                lad = []
                if cfg == 4:
                    for k, t in enumerate(TOLS):
                        lad.append((request(q, s, maxiter=300, atol=hexf(float(t)), rtol=hexf(float(t))), 4, k))
                else:
                    plain = (i * 5 + s) % len(BUDGETS)
                    for k, b in enumerate(BUDGETS):
                        r = request(q, s, maxiter=b, full_output=True, **opts)
                        lad.append((r, cfg, k))
                        if k in (plain, len(BUDGETS) - 1): lad.append((dict(r, opts=dict(r["opts"], full_output=False)), cfg + 2, k))
                recs.append((i, s, len(reqs), lad))
                for r, _, _ in lad: reqs.append(dict(r, compiled=True))
    out = execute(ctx.sc, reqs, compiled=True)
    ctx.say(f"{len(reqs)} calls")
    # a part of the ladders again, interpreted (the first ones of every solver)
    seen = Counter(); extra = []
    for i, s, a, lad in recs:
        if seen[s] < ctx.pick(12, 60) and s != 3:
            seen[s] += 1; extra.append((i, s, len(reqs) + sum(len(x[3]) for x in extra), lad))
    inter = [dict(r, compiled=False) for x in extra for r, _, _ in x[3]]
    out += execute(ctx.sc, inter, compiled=False)
    reqs += inter; recs += extra
    ctx.say(f"{len(inter)} calls interpreted")
    tapes = []
    keep = [x for x in recs if not any(o.get("skipped") for o in out[x[2]:x[2] + len(x[3])])]
    for i, s, a, lad in keep:
        obs = []
        for k, (r, cfg, pos) in enumerate(lad):
            o = out[a + k]
            w = pack_obs(s, cfg, o, pos)
            t = o.get("tpi")
            if o["s"] == 0 and t is not None and t >= 0 and t < float("inf"): w[1] |= 1 << 32
            if o["s"] == 0 and t is not None and t * o["n"] <= o["wall"]: w[1] |= 1 << 33
            obs.append(w)
        tapes.append(pack_problem(probs[i], obs))
    met, needs = Counter(), Counter()
    for st, idx in judge(ctx.sc, tapes, "budget"):
        for k, v in st["met"].items(): met[k] += v
        for k, v in st["needs"].items(): needs[k] += v
        for f in st["fails"]:
            i, s, a, lad = keep[idx[f["rec"]]]
            r, cfg, pos = lad[f["obs"]]
            o = out[a + f["obs"]]; got = [unbits(w) for w in o["w"]] if o.get("w") else None
            p = probs[i]["prob"]
            ctx.fail(f["clause"], who=NAMES[s], what=f"{describe(probs[i])}; {r['opts']}; {o.get('t') or got} {o.get('m', '')} iterations {o.get('n')} {o.get('tpi')}",
                     requests=[reqs[a + k] for k in range(len(lad))], outcomes=[out[a + k] for k in range(len(lad))],
                     expected=dict(v1=vec(p["v1"]), v2=vec(p["v2"])), pick=probs[i]["pick"], position=f["obs"])
    ctx.say(f"{sum(met.values())} outcomes judged, {len(ctx.fails)} rejected")
    ctx.coverage.update(evaluations=sum(met.values()), distinct_nontrivial=len(keep),
        rule="a case is a ladder: a generated problem with its known solution, a solver, and calls with growing budgets or tighter tolerances judged in order; none is repeated",
        samples=[dict(problem=describe(probs[i]), solver=NAMES[s], calls=len(lad)) for i, s, a, lad in keep[:5]], problems=len(probs), generator_steps=steps,
        ladders_by_first_sufficient_budget={NAMES[s]: {str(b): needs[s * 1000 + b] for b in BUDGETS + [999] if needs[s * 1000 + b]} for s in range(14)},
        outcomes={NAMES[s]: {outn: sum(v for k, v in met.items() if k // 10000 == st and k % 100 == s) for st, outn in enumerate(["returned", "ValueError", "RuntimeError", "other", "no end", "malformed"])
                             if any(k // 10000 == st and k % 100 == s for k in met)} for s in range(14)})
