// How accurate an answer has to be: bounds on the error relative to the speeds of the solution, by solver, settings of
// the call and kind of problem.  The bounds are some ten times the errors the solvers make with those settings; what
// they bound is the error the tolerances of the iterations imply, which each solver understands in its own way (on the
// time, on an anomaly, on the semi-major axis), never the rounding.
module accuracy {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"

  // settings of a call: 0 defaults; 1 atol = rtol = 1e-11, maxiter = 300; 2 maxiter = 300
  pure val DEFAULT = 0
  pure val TIGHT = 1
  pure val BUDGET = 2

  pure def ten(n: int): int = ONE / 10^n
  pure def nearParabola(q: Prob): bool = iabs(ONE - fsq(q.x)) < ONE / 10
  pure def nearMinimumEnergy(q: Prob): bool = q.revs == 0 and iabs(q.x) < ONE / 10

  pure def bound(s: int, cfg: int, par: bool, men: bool): int = {
    val loose = cfg != TIGHT
    if (s == 0) (if (loose) ten(4) else ten(9))
    else if (s == 1) (if (loose) ten(8) else ten(10))
    else if (s == 2) (if (loose) (if (men) ten(1) else 3 * ten(2)) else (if (men) 3 * ten(5) else if (par) ten(6) else ten(7)))
    else if (s == 3) (if (loose) 3 * ten(2) else if (par) 5 * ten(6) else ten(6))
    else if (s == 4) ten(11)
    else if (s == 5) (if (loose) 3 * ten(3) else if (par) ten(4) else ten(8))
    else if (s == 6) (if (loose) (if (men) 3 * ten(2) else ten(2)) else (if (men) 3 * ten(5) else ten(6)))
    else if (s == 7) (if (loose) 3 * ten(5) else ten(6))
    else if (s == 8) (if (loose) 5 * ten(3) else ten(8))
    else if (s == 9) (if (loose) 5 * ten(6) else ten(9))
    else if (s == 10) ten(10)
    else if (s == 11) ten(6)
    else if (s == 12) (if (par) (if (loose) 5 * ten(3) else ten(4)) else ten(10))
    else (if (loose) ten(7) else ten(6))
  }
  // next to the minimum time the two solutions of a multi-revolution problem depend on the time through a square root
  pure def nearMinimumTime(q: Prob): bool = q.revs > 0 and iabs(q.slope) < ONE / 20
  pure def tolerance(q: Prob, s: int, cfg: int): int = {
    val b = bound(s, cfg, nearParabola(q), nearMinimumEnergy(q))
    if (s == 11 and cfg != TIGHT and q.lam > 9 * ONE / 10) 3 * ten(4)        // the arcs Negrete's contours resolve worst
    else if (nearMinimumTime(q)) imax(b, if (cfg == TIGHT) ten(4) else ten(2)) else b
  }
}
