"""Requests made of small integers."""
from lib import *

LAT = ["a", "b", "c", "d", "e", "f", "k", "t", "m", "w"]


def gen_lattice(ctx, count, seed, revs, tag="lat"):
    per = -(-count // CPUS)

    def one(k):
        text = f"module {tag}{k} {{ import latgen(REVS=[{','.join(map(str, revs))}]).* from \"latgen\" }}\n"
        st = quint_run(ctx.sc, f"{tag}{k}", text, f"{tag}{k}", per, seed * 1000 + k)
        return [dict(pick=s["pick"], req=s["req"]) for s in st[1:]]
    seen, res = set(), []
    for q in [q for part in parallel(one, range(CPUS)) for q in part]:
        key = json.dumps(q["req"], sort_keys=True)
        if q["req"]["ok"] and key not in seen: seen.add(key); res.append(q)
    return res


def lattice_request(q, solver, **opts):
    r = q["req"]
    return dict(op="solve", solver=NAMES[solver], mu=hexf(float(r["mun"]) * 2.0 ** r["mue"]), r1=[hexf(v) for v in r["r1"]], r2=[hexf(v) for v in r["r2"]],
                tof=hexf(float(r["tofn"]) * 2.0 ** r["tofe"]), opts=dict(M=r["revs"], is_prograde=r["pro"], is_low_path=r["low"], **opts))


def tell(q):
    r = q["req"]
    return f"r1={r['r1']} r2={r['r2']} mu={r['mun']}*2^{r['mue']} tof={r['tofn']}*2^{r['tofe']} M={r['revs']} prograde={r['pro']} low={r['low']}"
