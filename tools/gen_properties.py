#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
SOLV = ["src/lamberthub/p_solvers/battin.py", "src/lamberthub/p_solvers/gauss.py", "src/lamberthub/p_solvers/jiang.py", "src/lamberthub/p_solvers/pan.py",
        "src/lamberthub/universal_solvers/gooding.py", "src/lamberthub/universal_solvers/der.py", "src/lamberthub/universal_solvers/arora.py",
        "src/lamberthub/universal_solvers/vallado.py", "src/lamberthub/universal_solvers/izzo.py", "src/lamberthub/universal_solvers/negrete.py",
        "src/lamberthub/universal_solvers/mcelreath.py", "src/lamberthub/series_solvers/thorne.py", "src/lamberthub/ecc_solvers/avanzini.py",
        "src/lamberthub/ecc_solvers/utils.py", "src/lamberthub/regularization/delatorre.py"]
MULTI = [f for f in SOLV if any(k in f for k in ("gooding", "der", "arora", "izzo", "negrete", "mcelreath", "delatorre"))]
UT = "src/lamberthub/utils/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe="return values and exceptions of the public call", state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m) for n, m in state], observe_at=[observe], hook_needed=None)))

p("C01", "Direct transfers returned by any solver satisfy the boundary-value problem",
  "Whenever any of the solvers returns velocities for a direct (M=0) transfer, they are finite and the Keplerian orbit that leaves r1 with v1 under mu reaches r2 with v2 after exactly tof, having swept the transfer angle between 0 and 360 degrees in the requested sense without completing a revolution. "
  "This holds for elliptic, circular, parabolic, near-parabolic and hyperbolic arcs, short and long way, outgoing and incoming, with the error the iteration tolerances imply: about 1e-6 or better relative to the velocities when atol and rtol are tight, a few per cent at worst with the defaults.",
  ["inputs", "configurations"], "every mu > 0, every pair of non-collinear positions, every tof, both senses, all 14 solvers, default and tight tolerances; transfer angles within 3 degrees of 0, 180 or 360 are ill-conditioned and excluded",
  "tests compare a dozen textbook cases to 3 digits (atol 0.02); the claim is over a continuum of geometries and energies and each solver's branches (short/long way, conic type, initial-guess regions) are reached by few or none of them",
  SOLV, [("solver entry points", "the function named authorYYYY of each solver module"), ("velocity reconstruction", "the last lines of each solver"), ("transfer angle", UT + "angles.py get_transfer_angle")])
p("C02", "Robust solvers solve every ordinary direct transfer",
  "Every well-posed direct transfer (M=0) is answered with a solution, not with an exception and not by looping forever, by every solver the library lists as robust, with default iteration settings. "
  "The other zero-revolution solvers also answer every ordinary transfer: eccentricity up to 0.9 or a clear hyperbola, transfer angle between about 10 and 170 or 190 and 345 degrees, given a sufficient iteration budget; gauss1809 answers short arcs (up to 45 degrees) between similar radii.",
  ["inputs"], "all geometries and energies of C01, including the exact parabola, minimum-energy ellipse, equal radii and arcs through either apse. In terms of the parameter x of Lancaster and Blanchard (1 is the parabola): robust solvers with default settings for x = 1 or |1 - x^2| >= 1/500 "
  "(delatorre2018 and negrete2024 up to x = 2 and lambda = 0.9 with the default settings; delatorre2018 with maxiter = 300 everywhere); the other solvers for x from -0.9 to 2 and angles 9-171 or 189-346 degrees with maxiter = 300; gauss1809 for x from 0.5 to 1.2, angles up to 45 degrees and a ratio of the radii up to 1.5",
  "no finite set of cases shows that an iteration converges everywhere; tests try two near-tangent cases",
  SOLV + ["src/lamberthub/__init__.py"], [("iteration loops and initial guesses", "each solver"), ("taxonomy", "src/lamberthub/__init__.py ROBUST_SOLVERS, ZERO_REV_SOLVERS")])
p("C03", "Multi-revolution solutions complete M revolutions on the requested path",
  "Whenever a multi-revolution solver returns for M>=1, the returned velocities define an ellipse that goes from r1 to r2 in exactly tof after completing exactly M full revolutions, in the requested sense of motion. "
  "Of the two such ellipses, is_low_path=True selects the one whose Lancaster-Blanchard parameter x is larger (the branch on which the time of flight grows with x) and False the one with the smaller x, the same for all the multi-revolution solvers.",
  ["inputs", "configurations"], "M from 1 to 20, both paths, both senses, all transfer angles away from 0/180/360 degrees, eccentricity up to 0.9; all seven multi-revolution solvers (negrete2024, which integrates numerically, with enough nodes: maxiter = 300 and M up to 6)",
  "tests hold a handful of M=1 and M=2 cases; branch selection and revolution counting depend on the geometry and on M",
  MULTI, [("multi-revolution branch selection", "initial guesses and brackets for M>0 in each multi-revolution solver")])
p("C04", "Multi-revolution existence: solved above the minimum time, refused below it",
  "For M>=1 a multi-revolution solver returns a solution for either path when tof exceeds the minimum time for M revolutions of that geometry, and raises ValueError when tof is below it, never returning velocities for an infeasible request.",
  ["inputs"], "M from 1 to 12, tof from 0.2 to 20 times the minimum time for M revolutions of the geometry (0.1 per cent margin around the minimum), both senses and paths; negrete2024 has to answer with maxiter = 300 and M up to 6",
  "two tests ask for an infeasible M in one geometry each; feasibility is a curve in the space of geometries and must be decided at every point",
  MULTI, [("feasibility decision", "'No feasible solution' raises in each multi-revolution solver")])
p("C05", "The requested sense of motion decides the side of the transfer",
  "With is_prograde=True the orbit returned by any solver has inclination between 0 and 90 degrees, and with False between 90 and 180 degrees, whatever the order and orientation of r1 and r2; the two requests give the two complementary transfer angles (they add to 360 degrees) in the same plane. "
  "The plane contains both position vectors, and coplanar (equatorial) geometries, nearly polar planes and vectors along the axes are no exception.",
  ["inputs", "configurations"], "all solvers, all orientations of the orbital plane (in an exactly polar plane the inclination is 90 degrees for both senses, and they still give the two complementary transfer angles), all transfer angles, M=0 and M>=1",
  "tests use few fixed planes; equatorial retrograde transfers are never tried",
  SOLV + [UT + "angles.py"], [("sense selection", UT + "angles.py get_transfer_angle, get_orbit_normal_vector"), ("own sense logic", "izzo2015, thorne2004")])
p("C06", "Every solver rejects invalid parameters before computing",
  "Every solver raises ValueError, with the message documented for the cause, when mu<=0, tof<=0, M<0, either position vector is not three-dimensional or is null, or both vectors are equal, or any of these numbers is not finite (NaN or infinite), for every combination of the remaining arguments. "
  "Valid parameters are never rejected by these checks.",
  ["inputs", "configurations"], "all 14 solvers x every invalid class and pairs of classes x both senses/paths, positional or keyword, full_output on and off; valid boundary values (tiny positive mu and tof, vectors with some null components, equal norms)",
  "tests call the assertion helpers directly with one value each, not the solvers",
  SOLV + [UT + "assertions.py"], [("assert_parameters_are_valid", UT + "assertions.py")])
p("C07", "Undefined or unsupported requests raise, they are not answered",
  "Collinear position vectors (transfer angle 0 or 180 degrees, the orbital plane being undefined) make every solver raise ValueError or RuntimeError, and M>=1 makes every single-revolution solver raise ValueError naming the multi-revolution scenario; no velocities are returned in either case, whatever the magnitudes, orientation, sense, tof and tolerances. "
  "No solver hangs, and no exception other than ValueError or RuntimeError escapes.",
  ["inputs", "configurations"], "all 14 solvers; exactly collinear vectors in arbitrary directions and ratios (vectors within 1e-12 of collinear may be refused as well), M from 1 to 10, all flags",
  "tests cover one 180 degree case for one solver and one zero-angle case for four",
  SOLV + [UT + "angles.py", UT + "assertions.py"], [("collinearity", UT + "angles.py get_transfer_angle"), ("guards", "first lines of each solver")])
p("C08", "Iteration budget and tolerances: converge within maxiter or raise",
  "For every solver, a return means that the iteration met its tolerances: for every maxiter from 0 up the call either raises ValueError or RuntimeError or returns the same solution (within tolerance) a larger budget gives, never a partially converged one, and once a budget suffices every larger one does. "
  "With full_output=True the same velocities are returned followed by the number of iterations, a non-negative integer not above maxiter (the quadrature solver uses at least 4) and, for direct transfers, above every budget that does not suffice, and a finite non-negative time per iteration, which times the iterations is not more than the call took. "
  "The error of the solution is at most what atol and rtol imply, and tightening them does not make it worse beyond that.",
  ["inputs", "configurations"], "maxiter in 0..200, tolerance pairs from 1e-3 to 1e-12, full_output on and off, direct and multi-revolution problems, all solvers. Allowances: der2011, thorne2004 and mcelreath2025 may report 1 iteration with maxiter = 0, and the multi-revolution start of mcelreath2025 iterates apart; "
  "negrete2024, whose maxiter is a number of nodes, is exempt from the monotonicity; der2011 and pan2016 fall back on a second iteration, so their iteration count, and the solution within the tolerances, may depend on the budget (pan2016, and izzo2015 where it looks for the greatest number of revolutions first, may also report fewer iterations than an insufficient budget); the others take the same number of iterations with every sufficient budget",
  "tests exercise maxiter=1 for two solvers, and full_output only in benchmarks",
  SOLV, [("iteration loops", "for numiter in range(1, maxiter + 1) in each solver"), ("full_output", "return statement of each solver")])
p("C09", "Calls are pure: no memory, no side effects, safe in any order and from threads",
  "A solver call is a function of its arguments alone: repeating it, after any sequence of other calls (other solvers, failing calls, other configurations), after mutating earlier inputs or results in place, or concurrently from several threads, gives bit-for-bit the same outcome (the reported time per iteration excepted). "
  "Calls leave their argument arrays unmodified, return arrays that share no memory with the arguments, the library or other results, print nothing, and change no global state such as the solver lists, numpy's error or random state.",
  ["histories", "schedules"], "all interleavings of calls to the 14 solvers with repeated, failing, aliased and concurrent calls",
  "each test makes one call with fresh arrays in one thread",
  SOLV + ["src/lamberthub/__init__.py"], [("solver functions", "each solver; module level state")], state=[("call history", "the calls made so far; must be irrelevant"), ("arrays", "argument and result arrays shared with the caller")])
p("C10", "Solutions respect the symmetries of the two-body problem",
  "For every solver that answers both problems, a change of units of length and time, a rotation about the polar axis, a mirror image about the equatorial plane or a plane containing the polar axis (with the sense of motion exchanged in the latter), and exchanging r1 and r2 with the sense reversed (motion backwards in time), transform its solution exactly as they transform the orbit. "
  "Compositions of these transformations do too, for direct and multi-revolution transfers.",
  ["inputs"], "all words over the generators of the symmetry group, applied to the problems of C01 and C03, with tight tolerances: any powers of two as units, turns by any angle; units, turns and mirrors to about 1e-6, backwards motion within the tolerances",
  "no test relates two solutions to each other",
  SOLV, [("all of each solver", "non-dimensional formulation and frames")])
p("C11", "All solvers agree, share one signature, and are listed where they belong",
  "Given the same request, any two solvers that answer it return the same velocities (within their tolerances), and the answer does not depend on which one is called. "
  "Every solver is callable as solver(mu, r1, r2, tof, M=0, is_prograde=True, is_low_path=True, maxiter=<a positive integer>, atol=1e-5, rtol=1e-7, full_output=False), positionally or by keyword (delatorre2018 has 1e-12 for both default tolerances). "
  "ALL_SOLVERS lists the 14 solvers once each; ZERO_REV, MULTI_REV, ROBUST and NON_ROBUST lists are consistent with it and with what each solver does (multi-revolution solvers solve M>=1, the others refuse it; ZERO_REV_SOLVERS lists solvers of direct transfers, gauss1809 and vallado2013 being absent from it in this version; robust and non-robust are disjoint; robust solvers accept every ordinary direct transfer).",
  ["inputs", "configurations"], "all pairs of solvers, all requests of C01 and C03, plus the solver lists",
  "tests compare each solver to book values at 3 digits; lists are iterated but never checked",
  SOLV + ["src/lamberthub/__init__.py"], [("solver lists", "src/lamberthub/__init__.py"), ("signatures", "each solver")])
p("C12", "Geometry utilities: transfer angle, orbit normal, inclination and node",
  "For any two non-collinear positions and sense, the transfer angle lies in (0, 360) degrees, has the sine and cosine the vectors determine, is accurate to rounding also near 0 and 180 degrees, and the angles for both senses add to 360 degrees; for collinear positions it is exactly 0 or 180 degrees. "
  "The orbit normal is the unit vector perpendicular to both positions whose polar component has the sign of the sense, and inclination in [0, 180] degrees and ascending node in [0, 360) degrees (up to rounding) are those of that normal, with inclination 0 or 180 for equatorial planes. "
  "dot, cross and norm compute the Euclidean products.",
  ["inputs"], "all pairs of non-null vectors, any magnitude and orientation, both senses",
  "two collinear cases are tested; nothing else in these functions",
  [UT + "angles.py", "src/lamberthub/linalg.py"], [("get_transfer_angle", UT + "angles.py"), ("get_orbit_normal_vector", UT + "angles.py"), ("get_orbit_inc_and_raan_from_position_vectors", UT + "angles.py"), ("dot/cross/norm", "src/lamberthub/linalg.py")])
p("C13", "Anomaly conversions and Kepler's equations are exact inverses and consistent",
  "Conversions between true and eccentric, parabolic and hyperbolic anomalies satisfy the conic identities (same radius), are mutually inverse over the whole admissible range, odd and increasing, and Kepler's equations for each conic give the mean anomaly, zero at periapsis, odd and increasing, that the flow of the two-body problem dictates (equal areas in equal times). "
  "The mean anomaly from the true anomaly selects the equation by eccentricity (elliptic, exactly parabolic, hyperbolic) and a negative eccentricity raises ValueError.",
  ["inputs"], "all eccentricities in [0, 50] including 1 and both neighbours of 1, all admissible anomalies of both signs",
  "one book value per function is tested",
  [UT + "angles.py", UT + "kepler.py"], [("nu_to_E, E_to_nu, nu_to_B, B_to_nu, nu_to_H, H_to_nu", UT + "angles.py"), ("kepler_elliptic, kepler_parabolic, kepler_hyperbolic, kepler_from_nu", UT + "kepler.py")])
p("C14", "Orbital elements and state vectors convert into each other without loss",
  "Elements to state gives the position and velocity that the two-body geometry prescribes (radius, energy, angular momentum, orientation), and state to elements recovers elements that reproduce the state: converting back gives the original position and velocity, for elliptic, circular, parabolic and hyperbolic orbits, inclined, equatorial prograde or retrograde, and polar, at any anomaly. "
  "Angles come back in their ranges: inclination in [0, 180], node and periapsis in [0, 360) and true anomaly in [-180, 180) degrees (up to rounding). Rotation matrices are proper rotations about the requested axis, and any other axis raises ValueError.",
  ["inputs"], "all conics, orientations (degenerate ones included), anomalies and gravitational parameters; rotation_matrix about the y axis is a known finding (its wrong sign is pinned by a stable test)",
  "a few poliastro cases are tested, with no parabola and no retrograde equatorial orbit",
  [UT + "elements.py"], [("coe2rv, rv2coe, rv_pqw, coe_rotation_matrix, rotation_matrix", UT + "elements.py")])
p("C15", "Stumpff functions are accurate and smooth over the whole argument range",
  "The second and third Stumpff functions equal (1-cos sqrt(z))/z and (sqrt(z)-sin sqrt(z))/z^1.5 for positive z, their hyperbolic continuations for negative z, and 1/2 and 1/6 at zero, to near machine precision relative to their natural scale, with no jump where the evaluation method changes, and the evaluation always terminates.",
  ["inputs"], "all z in [-2000, 2000], dense around 0 and around +-1 where the evaluation method changes",
  "no test evaluates them directly",
  [UT + "stumpff.py"], [("c2, c3", UT + "stumpff.py")])
p("C16", "The README benchmark report is faithful and regenerating it loses nothing",
  "The generated section lists every benchmark entry of the reports exactly once, under its group and scenario, with its solver, revolutions, sense, path, times in microseconds and rounds, rows of a scenario ordered by revolutions, sense, path and median, ranks 1..n by median within each case, and speed-up relative to the slowest solver of the case. "
  "The header of the section names the commit and machine of the first report. Updating a README replaces the section between its markers, or appends one if there is none, so that after any sequence of updates there is exactly one section, holding the last report verbatim, and all text outside the markers is unchanged (blank lines at the end may be trimmed when the section is appended, and a newline put after its last marker). "
  "Updating twice with the same report is the same as once, and a directory without reports raises FileNotFoundError leaving the README untouched.",
  ["histories", "inputs"], "all sets of reports with distinct (group, case, solver) entries and all sequences of updates over READMEs with LF line ends, with or without a section (at most one, and no stray markers), text before and after; the order of groups and scenarios is free",
  "the script has no tests; CI only runs it",
  ["scripts/generate_benchmark_report.py"], [("load_reports, build_section, update_readme", "scripts/generate_benchmark_report.py")],
  observe="functions load_reports, build_section and update_readme, and the script run as a command", state=[("README text", "before, section, after")])
p("C17", "Results do not depend on how the same numbers are represented or executed",
  "The same request gives the same outcome whether the vectors are integer- or float-valued arrays, contiguous or strided, writable or read-only, scalars are Python or numpy numbers and flags Python or numpy booleans, arguments are positional or by keyword, and whether functions run compiled by numba or interpreted (up to rounding); defaults equal their documented values passed explicitly.",
  ["configurations", "inputs"], "all solvers, direct and multi-revolution, returning and raising requests, over all the representations listed (32-bit integers only while their products are exact: components up to 12500)",
  "tests pass contiguous float arrays by a mix of positional and keyword arguments; each mode is checked against the same 3-digit values only",
  SOLV + ["src/lamberthub/linalg.py"], [("numba jit", "decorated helpers in all modules"), ("defaults", "signatures")])

p("C18", "Conics through two positions: transverse eccentricity determines the transfer",
  "For two non-collinear positions and a sense, get_geometry gives the distances, the chord, the transfer angle and the direction of the chord, and the fundamental ellipse is the conic of least eccentricity through both. "
  "For any transverse eccentricity, the conic reported (eccentricity, semi-major axis, infinite for the parabola, semi-latus rectum, and the orbital elements) passes through both positions, and the time of flight reported is the time that conic takes from one to the other in that sense; collinear positions raise ValueError.",
  ["inputs"], "all pairs of positions and both senses, transverse eccentricities for which the arc exists (ellipses, the exact parabola, hyperbolas up to e = 20)",
  "no test calls these functions; the solver that uses them is tested on a dozen cases and its root finder hides their errors away from the solution",
  ["src/lamberthub/ecc_solvers/utils.py"], [("get_geometry, get_fundamental_ellipse_properties, eap_from_eccT, kepler_tof_at_eccT, coe_at_eccT", "src/lamberthub/ecc_solvers/utils.py")],
  observe="return values and exceptions of these functions")
p("C19", "Time laws of Lambert's problem and what inverts them",
  "Gooding's tlamb gives the normalised time of flight at any parameter x for any number of revolutions, together with its derivatives, xlamb returns the x whose time is the one asked for (both of them for several revolutions, none below the minimum time), and vlamb the velocities of the arc it describes. "
  "Thorne's parabolic, minimum-energy and Lagrange times are those of the conics they name, his inverse gives a semi-major axis with the time asked for within its tolerances, velocities are rebuilt from x exactly, and the hypergeometric series has its value.",
  ["inputs"], "all shapes of the triangle (q from -0.99 to 0.99), x from -0.95 to 20, up to 10 revolutions, any size and gravitational parameter; derivatives next to the parabola to what the series' own stopping rule leaves",
  "no test calls these functions; the solvers' own iterations hide errors of the derivatives and of the guesses, and errors of the time are seen only at the textbook cases",
  ["src/lamberthub/universal_solvers/gooding.py", "src/lamberthub/series_solvers/thorne.py", "src/lamberthub/universal_solvers/izzo.py"],
  [("tlamb, xlamb, vlamb", "src/lamberthub/universal_solvers/gooding.py"), ("get_parabolic_tof, get_minimum_energy_tof, lagrange_tof, get_semimajor_axis, reconstruct", "src/lamberthub/series_solvers/thorne.py"), ("hyp2f1b", "src/lamberthub/universal_solvers/izzo.py")],
  observe="return values and exceptions of these functions")
p("C20", "Thorne's series of the time of flight, its reversion and its bounds",
  "get_A_array returns the coefficients of the series of the time of flight over the parabolic one, less one, in powers of s / 2a, for either sense of the transfer and any order. "
  "For any series with a non-zero first coefficient, get_Q_matrix returns the coefficients of the powers of the reverted series (row i, column j: power i of the argument in the j-th power), and get_B_array those of its inverse, in any order. "
  "The bounds of the semi-major axis are the first of the starting value and its doubles beyond the semi-major axis with that time of flight.",
  ["inputs"], "any triangle, either sign, orders up to 10 (8 for reversion), coefficients up to the first's fourth; times of flight of hyperbolas and of both branches of the ellipses",
  "no test calls these functions, and the solver does not use its series",
  ["src/lamberthub/series_solvers/thorne.py"], [("get_A_array, get_Q_matrix, get_B_array, expand_lower_hyperbolic_bound, expand_upper_elliptic_bound", "src/lamberthub/series_solvers/thorne.py")],
  observe="return values of these functions")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
