"""C17: outcomes do not depend on how the same numbers are represented, passed or executed."""
from collections import Counter
from answers import CONFIGS, MULTI_SOLVERS
from lattice import *

PLAIN = dict(v1=0, v2=0, mu=0, tof=0, revs=0, flags=0, how=4, omit=0)
ISINT = lambda x: float(x).is_integer() and abs(x) < 2**53


def gen_forms(ctx, count, seed, revs, tag="form"):
    per = -(-count // CPUS)

    def one(k):
        text = f"module {tag}{k} {{ import formgen(R0=[{','.join(map(str, revs))}]).* from \"forms\" }}\n"
        st = quint_run(ctx.sc, f"{tag}{k}", text, f"{tag}{k}", per + 1, seed * 1000 + k, step="pair")
        return [dict(pick=a["pick"], spoil=a["spoil"], req=b["asked"], forms=b["made"], codes=b["codes"]) for a, b in zip(st[1:], st[2:])]
    seen, res = set(), []
    for q in [q for part in parallel(one, range(CPUS)) for q in part]:
        key = json.dumps(q["req"], sort_keys=True)
        if q["req"]["ok"] and key not in seen: seen.add(key); res.append(q)
    return res


def ask(q, s, cfg, full, form, compiled):
    r = q["req"]
    mu, tof = float(r["mun"]) * 2.0 ** r["mue"], float(r["tofn"]) * 2.0 ** r["tofe"]
    m = dict(form)
    if m["mu"] in (1, 3) and not ISINT(mu): m["mu"] = 2
    if m["tof"] in (1, 3) and not ISINT(tof): m["tof"] = 2
    for v, c in (("v1", r["r1"]), ("v2", r["r2"])):
        if m[v] == 6 and max(map(abs, c)) > 12500: m[v] = 1         # products of 32-bit integers are only exact so far
    opts = {k: (hexf(v) if isinstance(v, float) else v) for k, v in CONFIGS[cfg].items()}
    return dict(op="form", solver=NAMES[s], compiled=compiled, form=m,
                q=dict(mu=mu, r1=r["r1"], r2=r["r2"], tof=tof, M=r["revs"], pro=r["pro"], low=r["low"], full=full, opts=opts))


def run(ctx):
    n = ctx.pick(700, 9000)
    probs = gen_forms(ctx, n, ctx.seed + 17000, [0, 0, 0, 1, 2])
    ctx.say(f"{len(probs)} requests generated")
    reqs, rows = [], []        # rows: (problem, solver, settings, code, compiled, index of the row compared with)
    for i, q in enumerate(probs):
        solvers = [s for s in range(14) if s in MULTI_SOLVERS or q["req"]["revs"] < 1 or i % 5 == 0]
        for s in solvers:
            if s == 3 and i % 4: continue
            cfg, full = (0, 1, 2)[(i + s) % 3], (i + s) % 2 == 0
            def add(code, form, compiled, like):
                reqs.append(ask(q, s, cfg, full, form, compiled)); rows.append((i, s, cfg, code, compiled, like)); return len(rows) - 1
            p = add(-1, PLAIN, False, -1)
            for j in range(3): add(q["codes"][j], q["forms"][j], False, p)
            c = add(-1, PLAIN, True, p)
            # (compiled code is made anew for each kind of argument: the forms are taken in turn)
            for j in range(3, 6): add(q["codes"][j], q["forms"][j], True, c)
    out = [None] * len(rows)
    for comp in (False, True):
        idx = [k for k, r in enumerate(rows) if r[4] == comp]
        for k, o in zip(idx, execute(ctx.sc, [reqs[k] for k in idx], compiled=comp)): out[k] = o
        ctx.say(f"{len(idx)} calls {'compiled' if comp else 'interpreted'}")
    per = {}
    for k, r in enumerate(rows):
        if not out[k].get("skipped") and (r[5] < 0 or not out[r[5]].get("skipped")): per.setdefault(r[0], []).append(k)
    recs = sorted(per); tapes = []
    for i in recs:
        w = pack_slots([probs[i]["pick"][x] for x in LAT] + [probs[i]["spoil"], len(per[i])])
        pos = {k: j for j, k in enumerate(per[i])}
        for k in per[i]:
            o = out[k]; _, s, cfg, code, comp, like = rows[k]
            w += pack_slots([code, s, cfg, int(comp), o["s"], o.get("n", -1), pos[like] if like >= 0 else -1, 0]) + [o.get("kind", 0), o.get("msg", 0)] + (o.get("w") or [0] * 6)
        tapes.append(hexlit(w))
    met, worst = Counter(), {}
    for st, idx in judge(ctx.sc, tapes, "formjudge"):
        for k, v in st["met"].items(): met[k] += v
        for k, v in st["worst"].items(): worst[k] = max(worst.get(k, 0), v)
        for f in st["fails"]:
            ks = per[recs[idx[f["rec"]]]]; k = ks[f["obs"]]; p = rows[k][5]
            got = [[unbits(w) for w in out[j]["w"]] + [out[j].get("n")] if out[j].get("w") else f"{out[j].get('t')} {out[j].get('m')}" for j in (k, p)]
            ctx.fail(f["clause"], who=NAMES[rows[k][1]], what=f"{tell(probs[rows[k][0]])}; settings {CONFIGS[rows[k][2]]}; form {reqs[k]['form']} {'compiled' if rows[k][4] else 'interpreted'}: {got[0]}; "
                     f"form {reqs[p]['form']} {'compiled' if rows[p][4] else 'interpreted'}: {got[1]}", requests=[reqs[k], reqs[p]], outcomes=[out[k], out[p]])
    total = sum(met.values())
    ctx.say(f"{total} forms compared, {len(ctx.fails)} rejected")
    ctx.coverage.update(evaluations=len(rows), distinct_nontrivial=len({json.dumps([reqs[k][x] for x in ("solver", "form", "compiled", "q")], sort_keys=True) for k in range(len(rows)) if rows[k][3] >= 0}),
        rule="a case is a request generated by the specification, sound or with something wrong, made of a solver in a form which is not the plain one; counted are the different ones",
        samples=[dict(request=tell(q), spoil=q["spoil"], forms=q["forms"][:2]) for q in probs[:3]], requests=len(probs),
        comparisons={f"{NAMES[s]} {n} {o}": met[(a * 10 + b) * 100 + s] for s in range(14) for a, n in ((0, "bit for bit"), (1, "up to rounding")) for b, o in ((0, "answered"), (1, "ValueError"), (2, "RuntimeError"))
                     if met[(a * 10 + b) * 100 + s]},
        greatest_difference={f"{NAMES[s]} {n}": float(f"{worst[a * 100 + s] / 1e18:.1e}") for s in range(14) for a, n in ((0, "other form"), (1, "compiled")) if a * 100 + s in worst})
