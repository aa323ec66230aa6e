"""Calls with sound and unsound parameters: generation, execution, judgement (C06, C07)."""
from collections import Counter
from lib import *
from model import tlc

FIELDS = ["s", "k", "mask", "a", "b", "c", "d", "e", "f", "m", "w", "it"]
REASON = ["", "mu", "dimension", "null vector", "equal vectors", "tof", "negative revolutions", "multi-revolution", "collinear", "not finite"]
MU, DIM, NUL, EQU, TOF, REV, MUL, COL, PI, XT, XR, NEAR, TINY, ODD = (1 << k for k in range(14))


def gen_calls(ctx, masks, count, seed, tag):
    per = -(-count // CPUS)

    def one(k):
        text = f"module {tag}{k} {{ import callgen(MASKS=[{','.join(map(str, masks))}], FIRST={k * 5}).* from \"callgen\" }}\n"
        st = quint_run(ctx.sc, f"{tag}{k}", text, f"{tag}{k}", per, seed * 1000 + k)
        return [dict(pick=s["pick"], req=s["req"]) for s in st[1:]]
    return [q for part in parallel(one, range(CPUS)) for q in part]


def request_of(c):
    q = c["req"]
    return dict(op="call", solver=NAMES[q["solver"]], q=dict(mu=[q["mu"]["n"], q["mu"]["e"]], tof=[q["tof"]["n"], q["tof"]["e"]], r1=q["r1"], e1=q["e1"], r2=q["r2"],
                e2=q["e2"], revs=q["revs"], pro=q["pro"], low=q["low"], full=q["full"], maxiter=q["maxiter"], how=q["how"], odd=q["odd"]))


def run_calls(ctx, calls, interpreted_every=4):
    comp = [k for k in range(len(calls)) if k % interpreted_every != 1]
    inte = [k for k in range(len(calls)) if k % interpreted_every == 1]
    reqs, out = [request_of(c) for c in calls], [None] * len(calls)
    for idx, compiled in ((comp, True), (inte, False)):
        for k, o in zip(idx, execute(ctx.sc, [reqs[k] for k in idx], compiled=compiled)): out[k] = o
        for k in idx: reqs[k]["compiled"] = compiled
        ctx.say(f"{len(idx)} calls {'compiled' if compiled else 'interpreted'}")
    return reqs, out


def judge_calls(ctx, calls, reqs, out, tag="judge"):
    keep = [k for k in range(len(calls)) if not out[k].get("skipped")]
    tapes = [hexlit(pack_slots([calls[k]["pick"][f] for f in FIELDS] + [out[k]["s"], out[k].get("reason", 0)])) for k in keep]
    met = Counter()
    for st, idx in judge(ctx.sc, tapes, "calljudge", ", BATCH=50", tag=tag, batch=50):
        for k, v in st["met"].items(): met[k] += v
        for f in st["fails"]:
            k = keep[idx[f["rec"]]]
            o = out[k]
            ctx.fail(f["clause"], who=reqs[k]["solver"], what=f"{reqs[k]['q']}: {o.get('t', '')} {o.get('m', '')} {[unbits(w) for w in o['w']] if o.get('w') else ''}",
                     requests=[reqs[k]], outcomes=[o], pick=calls[k]["pick"])
    ctx.say(f"{len(keep)} calls judged, {len(ctx.fails)} rejected")
    return met


def call_coverage(ctx, calls, met, model, rule):
    kinds = Counter()
    for k, v in met.items():
        c = k // 100
        kinds["; ".join(REASON[j] for j in range(1, 10) if c >> j & 1) or "valid"] += v
    st, gen = model
    ctx.level = "model_checking"
    ctx.coverage.update(states=st, transitions=gen, traces_validated_against_impl=sum(met.values()), rule=rule,
                        samples=[request_of(c) for c in calls[:3]], distinct_nontrivial=len({json.dumps(request_of(c), sort_keys=True) for c in calls}),
                        requests_by_reasons=dict(kinds.most_common()),
                        ends={f"status {s}, reason {REASON[r] or 'none of these'}": sum(v for k, v in met.items() if (k // 10 % 10, k % 10) == (s, r))
                              for s in range(6) for r in range(10) if any((k // 10 % 10, k % 10) == (s, r) for k in met)})
