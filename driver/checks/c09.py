"""C09: calls are pure: no memory, no side effects, safe in any order and from threads."""
from collections import Counter
from lib import *

EV = ["op", "solver", "i", "j", "x", "mu", "tof", "revs", "flags", "settings", "k"]
ASK = ["solver", "r1", "r2", "mu", "tof", "revs", "flags", "settings"]
MULTI = {4, 5, 8, 10, 11, 12, 13}


def key_of(a):
    n = 0
    for v in [a["solver"], *a["r1"], *a["r2"], a["mu"], a["tof"], a["revs"], a["flags"], a["settings"]]: n = n * 1024 + v + 512
    return n


def sessions(ctx, count, length, seed):
    """Each session is a behaviour of the generator machine, with a few solvers of its own."""
    def one(k):
        s = [k % 14, (k * 5 + 3) % 14, (k * 3 + 8) % 14]
        revs = [0, 0, 0, 1, -1] if k % 3 else [0, 1, 2, 0, 3]
        tag = f"sess{k}"
        text = f"module {tag} {{ import sessgen(SOLVERS=[{','.join(map(str, s))}], REVS=[{','.join(map(str, revs))}]).* from \"sessgen\" }}\n"
        st = quint_run(ctx.sc, tag, text, tag, length, seed * 1000 + k)
        return dict(events=[x["ev"] for x in st[1:]], asked=st[-1]["world"]["asked"])
    return parallel(one, range(count))


def play(ctx, ss, compiled, seed, threads):
    """Runs the sessions and, alone, every request they make.

    Code just compiled and the same code from numba's cache may differ in the last bits of a result: all of it is compiled first."""
    kw = dict(compiled=compiled, cache="c09" if compiled else None, limit=400)
    reqs = [dict(op="session", solver=f"session {k}", events=s["events"], odd=k % 2 == 0, threads=threads, seed=seed + k) for k, s in enumerate(ss)]
    keys = {}
    for s in ss:
        for a in s["asked"]: keys.setdefault(key_of(a), a)
    for _ in range(2 if compiled else 0):       # (twice: processes that compile the same function at once may lose an entry)
        execute(ctx.sc, [dict(op="warm", solver=NAMES[n], asks=[a for a in keys.values() if a["solver"] == n]) for n in range(14)], **kw)
    out = execute(ctx.sc, reqs, by=(lambda r: r["solver"]), **kw)
    todo = sorted(keys, key=lambda k: (keys[k]["solver"], k))
    parts = [todo[k::CPUS * 4] for k in range(CPUS * 4)]
    parts = [p for p in parts if p]
    res = execute(ctx.sc, [dict(op="fresh", solver=f"alone {k}", asks=[keys[q] for q in p]) for k, p in enumerate(parts)], by=(lambda r: r["solver"]), **kw)
    refs = {}
    for p, r in zip(parts, res):
        if r["s"]: raise Machinery(f"the requests made alone did not end: {r}")
        for q, o in zip(p, r["out"]): refs[q] = o
    ctx.say(f"{len(ss)} sessions of {len(ss[0]['events'])} events, {len(refs)} requests made alone, {'compiled' if compiled else 'interpreted'}")
    return reqs, out, keys, refs


def run(ctx):
    judged, met, samples, alone, threaded = 0, Counter(), [], 0, 0
    for compiled, count, length, threads in ((False, ctx.pick(16, 96), ctx.pick(150, 400), ctx.pick(40, 150)), (True, ctx.pick(8, 42), ctx.pick(120, 400), ctx.pick(60, 300))):
        ss = sessions(ctx, count, length, ctx.seed + 9000 + 500 * compiled)
        reqs, out, keys, refs = play(ctx, ss, compiled, ctx.seed, threads)
        samples += [dict(session=0, first_events=ss[0]["events"][:6])]
        alone += len(refs)
        threaded += sum(o.get("threaded", 0) for o in out)

        def one(k):
            s, o = ss[k], out[k]
            if o.get("skipped"): return None
            if o["s"]: return k, None, [dict(rec=0, clause="a session does not end" if o["s"] == 4 else f"a session breaks: {o}")], []
            rows, evs = [], []
            for n, r in enumerate(o["res"]):
                e = dict(s["events"][n]) if n < len(s["events"]) else dict(op=4 if r[2] >= 0 else 5, solver=0, i=0, j=1, x=0, mu=0, tof=0, revs=0, flags=0, settings=0, k=max(r[2], 0))
                evs.append(e)
                rows.append(hexlit(pack_slots([e[f] for f in EV] + [0]) + [r[0]] + r[1]))
            kset = sorted({key_of(a) for a in s["asked"]})
            R = [hexlit([q & (2**64 - 1), q >> 64] + refs[q]) for q in kset]
            tag = f"sj{int(compiled)}x{k}"
            text = (f"module {tag} {{\n  pure val ALONE = [\n" + ",\n".join(R) + "]\n  pure val DATA = [\n" + ",\n".join(rows) + f"]\n  import sessjudge(REFS=ALONE, TAPE=DATA).* from \"sessjudge\"\n}}\n")
            st = quint_run(ctx.sc, tag, text, tag, len(rows), 1)[-1]
            if st["i"] != len(rows): raise Machinery(f"{tag}: the trace machine stopped at record {st['i']} of {len(rows)}")
            return k, st, st["fails"], evs
        for r in parallel(one, range(len(ss))):
            if r is None: continue
            k, st, fails, evs = r
            for q, v in (st["met"] if st else {}).items(): met[q] += v
            judged += len(evs)
            for f in fails:
                if f["clause"] == "(no reference)": raise Machinery("a request was not made alone")
                e = evs[f["rec"]] if evs else {}
                a = None
                if evs:
                    calls = [n for n in range(len(evs)) if evs[n]["op"] == 0]
                    a = ss[k]["asked"][calls.index(f["rec"])] if e["op"] == 0 else ss[k]["asked"][e["k"]] if e["op"] == 4 else None
                ctx.fail(f["clause"], who=NAMES[a["solver"]] if a else "", what=f"session {k}, event {f['rec']} {'compiled' if compiled else 'interpreted'}: {a or e}; "
                         f"here {out[k]['res'][f['rec']][1] if evs else out[k]}; alone {refs.get(key_of(a)) if a else ''}",
                         requests=[dict(reqs[k], compiled=compiled)], outcomes=[])
    ctx.say(f"{judged} events judged, {len(ctx.fails)} rejected")
    calls = sum(v for q, v in met.items() if q < 2000)
    ctx.coverage.update(evaluations=calls + sum(v for q, v in met.items() if 2000 <= q < 9000), distinct_nontrivial=alone,
        rule="a case is a request met in a session generated by the specification (arrays changed in place, results overwritten, calls that fail, near repetitions, threads); "
             "counted are the different requests, each of which was also made alone in a process of its own",
        samples=samples, events=judged, calls_by_solver={NAMES[s]: {n: met[s * 10 + n] for n in range(6) if met[s * 10 + n]} for s in range(14)},
        calls_from_threads=threaded, outcomes_from_threads=sum(v for q, v in met.items() if 2000 <= q < 9000), other_events={n: met[9000 + q] for q, n in ((1, "new arrays"), (2, "changed in place"), (3, "results overwritten"))})
