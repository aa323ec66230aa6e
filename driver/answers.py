"""Checks that replay generated problems into the solvers and have the answers judged by the trace machine."""
from collections import Counter
from lib import *

CONFIGS = {0: {}, 1: dict(atol=1e-11, rtol=1e-11, maxiter=300), 2: dict(maxiter=300)}
CLASSES = {0: "elliptic", 1: "hyperbolic", 2: "parabolic", 3: "nearly parabolic ellipse", 4: "nearly parabolic hyperbola", 5: "circular",
           6: "symmetric about the apse line", 7: "from or to an apse", 8: "minimum energy", 9: "random geometry and energy", 10: "fast", 11: "slow",
           12: "very unequal distances", 13: "right angles", 14: "nearly 180 degrees", 15: "nearly 0 or 360 degrees", 16: "through an apse",
           17: "equal distances", 18: "close to the minimum energy", 25: "short arc", 20: "elliptic", 21: "random geometry", 22: "circular", 23: "equal distances",
           24: "close to the minimum time", 30: "elliptic, other path", 31: "random geometry, other path",
           32: "circular, other path", 33: "equal distances, other path", 34: "close to the minimum time, other path", 40: "less than the minimum time"}
DIRECT = list(range(19))
MULTI = [20, 21, 22, 23, 24]
MULTI_SOLVERS = [4, 5, 8, 10, 11, 12, 13]


def run_plan(ctx, probs, plan):
    """plan: (problem, solver, settings, compiled).  Returns outcomes in the order of the plan."""
    reqs = [request(probs[i], s, **CONFIGS[c]) for i, s, c, _ in plan]
    return reqs, execute_plan(ctx, plan, reqs)


def execute_plan(ctx, plan, reqs):
    out = [None] * len(plan)
    for comp in (True, False):
        idx = [k for k, p in enumerate(plan) if bool(p[3]) == comp]
        if not idx: continue
        for k, o in zip(idx, execute(ctx.sc, [reqs[k] for k in idx], compiled=comp)): out[k] = o
        ctx.say(f"{len(idx)} calls {'compiled' if comp else 'interpreted'}")
    return out


def judge_plan(ctx, probs, plan, reqs, out, rule, tag="judge", note=lambda k: 0):
    """Judges the outcomes and records the failures; returns the merged statistics."""
    per = {}
    for k, (i, s, c, comp) in enumerate(plan):
        if not out[k].get("skipped"): per.setdefault(i, []).append(k)
    recs = sorted(per)
    tapes = [pack_problem(probs[i], [pack_obs(plan[k][1], plan[k][2], out[k], note(k)) for k in per[i]]) for i in recs]
    J = judge(ctx.sc, tapes, "judge", f", RULE={rule}", tag=tag)
    worst, met = {}, Counter()
    for st, idx in J:
        for k, v in st["worst"].items(): worst[k] = max(worst.get(k, 0), v)
        for k, v in st["met"].items(): met[k] += v
        for f in st["fails"]:
            i = recs[idx[f["rec"]]]; k = per[i][f["obs"]]
            report(ctx, probs[i], plan[k], reqs[k], out[k], f["clause"])
    ctx.say(f"{sum(met.values())} outcomes judged, {len(ctx.fails)} rejected")
    return worst, met


def describe(q):
    p = q["prob"]; F = lambda v: v / ONE
    return f"{CLASSES[p['cls']]}: M={p['revs']} {'prograde' if p['pro'] else 'retrograde'} {'low' if p['low'] else 'high'} lambda={F(p['lam']):.6g} x={F(p['x']):.6g} T={F(p['tt']):.6g}"


def vec(a): return [to_float(a[k]) for k in "xyz"]


def report(ctx, q, step, req, out, clause):
    i, s, c, comp = step
    p = q["prob"]
    got = [unbits(w) for w in out["w"]] if out.get("w") else None
    ctx.fail(clause, who=NAMES[s], what=f"{describe(q)}; settings {CONFIGS[c]}; {'compiled' if comp else 'interpreted'}; outcome {out.get('t') or got} {out.get('m', '')}",
             requests=[dict(req, compiled=comp)], outcomes=[out], expected=dict(v1=vec(p["v1"]), v2=vec(p["v2"])), pick=q["pick"])


def coverage(ctx, probs, generated, plan, met, worst, extra=None):
    by = Counter(CLASSES[q["prob"]["cls"]] for q in probs)
    used = {(plan_i, s, c) for plan_i, s, c, _ in plan}
    answered = sum(v for k, v in met.items() if k // 1000000 == 0)
    ctx.coverage.update(
        evaluations=sum(met.values()), distinct_nontrivial=len(used),
        rule="a case is a problem of the generator machine (known solution, certified by the specification), a solver and its settings; all of them are "
             "inside the domain of Lambert's problem and none is repeated",
        samples=[dict(problem=describe(q), mu=to_float(q["prob"]["mu"]), r1=vec(q["prob"]["r1"]), r2=vec(q["prob"]["r2"]), tof=to_float(q["prob"]["tof"]),
                      v1=vec(q["prob"]["v1"])) for q in probs[:3]],
        problems=len(probs), generator_steps=generated, problems_by_class=dict(by), answered=answered,
        outcomes={f"{NAMES[s]} settings {c}": {n: sum(v for k, v in met.items() if (k // 1000000, k // 10000 % 100, k // 100 % 100) == (n, c, s)) for n in range(6)
                                              if any((k // 1000000, k // 10000 % 100, k // 100 % 100) == (n, c, s) for k in met)}
                  for s in range(14) for c in CONFIGS if any((k // 10000 % 100, k // 100 % 100) == (c, s) for k in met)},
        worst_error={f"{NAMES[s]} settings {c}": float(f"{max(v for k, v in worst.items() if k // 100 == c * 100 + s) / 1e18:.1e}")
                     for s in range(14) for c in CONFIGS if any(k // 100 == c * 100 + s for k in worst)}, **(extra or {}))
