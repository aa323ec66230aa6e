"""Calls to the auxiliary functions: generation, execution, judgement (C12 to C15)."""
from collections import Counter
from lib import *

A, K, E, S, L, T = ("lamberthub.utils.angles:", "lamberthub.utils.kepler:", "lamberthub.utils.elements:", "lamberthub.utils.stumpff:", "lamberthub.linalg:",
                    "lamberthub.utils.assertions:")
C, G, TH = "lamberthub.ecc_solvers.utils:", "lamberthub.universal_solvers.gooding:", "lamberthub.series_solvers.thorne:"
# number: (label, steps); a step is (function, shape of its arguments); the next step gets the results of the former
# shapes: f real, v vector, b boolean, i integer, s branch, w array of 8; in a later step "*": what the former returned, "t" the same as one argument, A, B: its first
# and second parts, a digit: that input again, n: the one after an array, as an integer
FUNCS = {1: ("dot", [(L + "dot", "vv")]), 2: ("cross", [(L + "cross", "vv")]), 3: ("norm", [(L + "norm", "v")]),
         10: ("transfer angle", [(A + "get_transfer_angle", "vvb")]), 11: ("orbit normal", [(A + "get_orbit_normal_vector", "vvb")]),
         12: ("inclination and node", [(A + "get_orbit_inc_and_raan_from_position_vectors", "vvb")]),
         13: ("transfer angles of both senses", "both get_transfer_angle"), 14: ("orbit normals of both senses", "both get_orbit_normal_vector"),
         20: ("nu_to_E", [(A + "nu_to_E", "ff")]), 21: ("E_to_nu", [(A + "E_to_nu", "ff")]), 22: ("nu_to_B", [(A + "nu_to_B", "f")]), 23: ("B_to_nu", [(A + "B_to_nu", "f")]),
         24: ("nu_to_H", [(A + "nu_to_H", "ff")]), 25: ("H_to_nu", [(A + "H_to_nu", "ff")]), 26: ("kepler_elliptic", [(K + "kepler_elliptic", "ff")]),
         27: ("kepler_parabolic", [(K + "kepler_parabolic", "f")]), 28: ("kepler_hyperbolic", [(K + "kepler_hyperbolic", "ff")]), 29: ("kepler_from_nu", [(K + "kepler_from_nu", "ff")]),
         30: ("nu to E and back", [(A + "nu_to_E", "ff"), (A + "E_to_nu", "*1")]), 31: ("nu to B and back", [(A + "nu_to_B", "f"), (A + "B_to_nu", "*")]),
         32: ("nu to H and back", [(A + "nu_to_H", "ff"), (A + "H_to_nu", "*1")]), 33: ("E to nu and back", [(A + "E_to_nu", "ff"), (A + "nu_to_E", "*1")]),
         34: ("B to nu and back", [(A + "B_to_nu", "f"), (A + "nu_to_B", "*")]), 35: ("H to nu and back", [(A + "H_to_nu", "ff"), (A + "nu_to_H", "*1")]),
         40: ("rv_pqw", [(E + "rv_pqw", "ffff")]), 41: ("coe2rv", [(E + "coe2rv", "fffffff")]), 42: ("rv2coe", [(E + "rv2coe", "fvv")]),
         43: ("rotation_matrix", [(E + "rotation_matrix", "fi")]), 44: ("coe_rotation_matrix", [(E + "coe_rotation_matrix", "fff")]),
         45: ("elements to state to elements to state", [(E + "coe2rv", "fffffff"), (E + "rv2coe", "0*"), (E + "coe2rv", "0*")]),
         46: ("state to elements to state", [(E + "rv2coe", "fvv"), (E + "coe2rv", "0*")]),
         50: ("c2", [(S + "c2", "f")]), 51: ("c3", [(S + "c3", "f")]),
         60: ("assert_transfer_angle_not_zero", [(T + "assert_transfer_angle_not_zero", "f")]), 61: ("assert_transfer_angle_not_pi", [(T + "assert_transfer_angle_not_pi", "f")]),
         70: ("get_geometry", [(C + "get_geometry", "vvb")]), 71: ("get_fundamental_ellipse_properties", [(C + "get_fundamental_ellipse_properties", "fff")]),
         72: ("eap_from_eccT", [(C + "get_geometry", "vvb"), (C + "eap_from_eccT", "7t")]), 73: ("kepler_tof_at_eccT", [(C + "get_geometry", "vvb"), (C + "kepler_tof_at_eccT", "78t")]),
         74: ("coe_at_eccT", [(C + "coe_at_eccT", "fvvb")]), 75: ("tlamb", [(G + "tlamb", "ifffi")]), 76: ("xlamb", [(G + "xlamb", "ifffiff")]), 77: ("vlamb", [(G + "vlamb", "fffffbiff")]),
         80: ("get_parabolic_tof", [(TH + "get_parabolic_tof", "fffi")]), 81: ("get_minimum_energy_tof", [(TH + "get_minimum_energy_tof", "fffi")]),
         82: ("lagrange_tof", [(TH + "lagrange_tof", "ffffis")]), 83: ("get_semimajor_axis", [(TH + "get_semimajor_axis", "ffffffiiff"), (TH + "get_x_from_semimajor_axis", "A1B")]),
         84: ("reconstruct", [(TH + "reconstruct", "fffvvfff")]), 85: ("hyp2f1b", [("lamberthub.universal_solvers.izzo:hyp2f1b", "f")]),
         86: ("get_A_array", [(TH + "get_A_array", "ffii")]), 87: ("get_Q_matrix", [(TH + "get_Q_matrix", "wi")]),
         88: ("get_B_array", [(TH + "get_Q_matrix", "wi"), (TH + "get_B_array", "wtn")]),
         89: ("expand_lower_hyperbolic_bound", [(TH + "expand_lower_hyperbolic_bound", "ffffif")]), 90: ("expand_upper_elliptic_bound", [(TH + "expand_upper_elliptic_bound", "ffffisf")])}


def gen_funcs(ctx, funcs, count, seed, tag="gen"):
    per = -(-count // CPUS)

    def one(k):
        text = f"module {tag}{k} {{ import funcgen(FUNCS=[{','.join(map(str, funcs))}], FIRST={k}).* from \"funcgen\" }}\n"
        st = quint_run(ctx.sc, f"{tag}{k}", text, f"{tag}{k}", per, seed * 1000 + k)
        return [(s["f"], [to_float(v) for v in s["args"]]) for s in st[1:]]
    return [c for part in parallel(one, range(CPUS)) for c in part]


def run_funcs(ctx, calls, interpreted_every=4):
    reqs = [dict(op="fn", f=f, steps=FUNCS[f][1], optional=f >= 70, x=[hexf(v) for v in x], compiled=k % interpreted_every != 1) for k, (f, x) in enumerate(calls)]
    out = [None] * len(reqs)
    for comp in (True, False):
        idx = [k for k, r in enumerate(reqs) if r["compiled"] == comp]
        for k, o in zip(idx, execute(ctx.sc, [reqs[k] for k in idx], compiled=comp, by=(lambda r: r["f"] % 16) if comp else None)): out[k] = o
        ctx.say(f"{len(idx)} calls {'compiled' if comp else 'interpreted'}")
    return reqs, out


def judge_funcs(ctx, calls, reqs, out, tag="judge"):
    keep = [k for k in range(len(calls)) if not out[k].get("skipped")]
    tapes = []
    for k in keep:
        f, x = calls[k]; w = out[k].get("w") or []
        tapes.append(hexlit([f | out[k]["s"] << 8 | len(x) << 16 | len(w) << 24] + [bits(v) for v in x] + w))
    met = Counter()
    for st, idx in judge(ctx.sc, tapes, "funcjudge", ", BATCH=50", tag=tag, batch=50):
        for k, v in st["met"].items(): met[k] += v
        for g in st["fails"]:
            k = keep[idx[g["rec"]]]; f, x = calls[k]; o = out[k]
            ctx.fail(g["clause"], key="rotation-y-sign" if g["clause"] == "the rotation about the second axis has the wrong sign" else "", who=FUNCS[f][0], what=f"{x} {'compiled' if reqs[k]['compiled'] else 'interpreted'}: {o.get('t', '')} {o.get('m', '')} {[unbits(w) for w in o.get('w') or []]}",
                     requests=[reqs[k]], outcomes=[o])
    ctx.say(f"{len(keep)} calls judged, {len(ctx.fails)} rejected")
    return met


def check_funcs(ctx, funcs, quick, thorough):
    calls = gen_funcs(ctx, funcs, ctx.pick(quick, thorough), ctx.seed + 12000)
    ctx.say(f"{len(calls)} calls generated")
    reqs, out = run_funcs(ctx, calls)
    met = judge_funcs(ctx, calls, reqs, out)
    ctx.coverage.update(evaluations=sum(met.values()), distinct_nontrivial=len({(f, tuple(x)) for f, x in calls}),
        rule="a case is a function (or a chain of conversions) and its arguments, generated by the specification; equal ones are counted once, arguments on which "
             "the result is trivial (zero) are among them",
        samples=[dict(function=FUNCS[f][0], arguments=x) for f, x in calls[:8]],
        calls={FUNCS[f][0]: {n: met[f * 10 + s] for s, n in enumerate(["returned", "ValueError", "RuntimeError", "other", "no end", "malformed", "not there"]) if met[f * 10 + s]} for f in sorted(set(funcs))})
