"""Claimed checks: level, technique, note."""
Q = "model-based: Quint specification (generator and trace machines), replay into the public API"
CLAIMS = {
 "C01": ("exploration", Q, "answers of all solvers to generated problems with known, independently certified solutions judged by the Quint trace machine"),
 "C02": ("exploration", Q, "generated ordinary problems: the trace machine requires an answer from each solver in its domain"),
 "C03": ("exploration", Q, "generated multi-revolution problems with known solutions on both paths, M up to 20"),
 "C05": ("exploration", Q, "both senses of generated problems over all orientations: the trace machine requires the motion to have the sense asked for, in the plane of both positions"),
 "C06": ("model_checking", Q + ", TLC on the call lifecycle", "call lifecycle machine checked with TLC; generated requests with every cause of refusal replayed and traced"),
 "C07": ("model_checking", Q + ", TLC on the call lifecycle", "call lifecycle machine checked with TLC; collinear, multi-revolution and extreme requests replayed and traced"),
 "C08": ("exploration", Q, "ladders of growing budgets and of tighter tolerances on generated problems, judged in order by a trace machine; with and without full output"),
 "C12": ("exploration", Q, "generated vectors (generic, small integers, nearly and exactly collinear, polar, equatorial) and functions judged on the very numbers given, at 60 digits"),
 "C13": ("exploration", Q, "generated anomalies and eccentricities; conversions, round trips and Kepler's equations judged at 60 digits, against the flow of the two-body problem"),
 "C14": ("exploration", Q, "generated elements and states of every conic; states, elements, round trips and rotation matrices judged at 60 digits"),
 "C15": ("exploration", Q, "generated arguments over the whole range, next to the switches of method and to the zeros; values judged at 60 digits"),
 "C16": ("model_checking", Q + ", TLC on the README machine", "README machine checked with TLC, its behaviours replayed into the script; generated sets of reports, their tables judged entry by entry"),
 "C04": ("exploration", Q, "generated problems at known ratios to the exact minimum time computed by the specification"),
 "C10": ("exploration", Q, "generated problems and their images under words of the symmetry group, acted on by the specification; the answers to both are related by the trace machine"),
 "C11": ("exploration", Q, "generated integer requests put to all solvers, all pairs of answers compared; the lists and signatures of the package judged by a trace machine against the specification of the hub"),
 "C09": ("exploration", Q, "sessions generated by a machine with arrays changed in place, results overwritten, failing calls, near repetitions and threads; the trace machine compares every outcome bit for bit with the same request made alone in a process of its own"),
 "C17": ("exploration", Q, "generated requests, sound or spoiled, in generated forms (integer, strided, read-only, reversed arrays; Python and numpy numbers; positional, keyword, defaults left out), compiled and interpreted; the trace machine compares the outcomes bit for bit, or up to rounding where the arithmetic differs"),
 "C18": ("exploration", Q, "generated positions, senses and transverse eccentricities; conics and times judged at 60 digits on the very numbers given"),
 "C19": ("exploration", Q, "generated triangles, parameters and times; times, derivatives, inverses and velocities judged at 60 digits on the very numbers given"),
 "C20": ("exploration", Q, "generated triangles, coefficients, orders and times; series, powers, inverses and bounds computed by the specification at 60 digits"),
}
