// Trace machine of the iteration budget: the calls of one solver for one problem with the same tolerances and growing
// budgets, in order (a ladder). The problem needs a number of iterations nobody but the solver knows: calls with less
// raise, calls with as many or more return one and the same solution, after one and the same number of iterations.
module budget {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"
  import tape.* from "tape"
  import answers.* from "answers"
  import accuracy.* from "accuracy"
  import hub.* from "hub"
  import verdicts.* from "verdicts"
  const TAPE: List[int]
  pure val BUDGETS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 25, 30, 35, 50, 100, 200, 300]
  pure val TOLERANCES = 5     // steps of a ladder of tolerances: 1e-3, 1e-5, 1e-7, 1e-9, 1e-11, with 300 iterations
  // settings of an observation: 0 and 1 ladders of budgets with default and tight tolerances, with full output; 2 and 3 the same
  // calls without full output; 4 ladder of tolerances.  The message slot is the position in the ladder.
  type Ladder = { answered: bool, o: Obs, n: int, err: int, short: int }      // short: the greatest budget that did not suffice
  pure val QUADRATURE = 11    // its budget is the number of points of its quadratures, and more points are not always better
  pure def isQuadrature(s: int): bool = s == QUADRATURE
  // Der's and Pan's solvers fall back on another iteration when the first one did not converge within the budget, so what they
  // return, and after how many iterations, depends on the budget (within the tolerances)
  pure def fallsBack(s: int): bool = s == 3 or s == 5
  // iterations that a call with this budget may report
  pure def mostIterations(q: Prob, s: int, b: int): int =
    if (isQuadrature(s)) imax(4, b)
    else if (s == 12 and q.revs > 0) imax(1, 2 * b)      // two iterations in turn, each with this budget: minimum time and solution
    else imax(1, b)                                      // (solutions found before iterating are reported as found at the first)
  // Izzo's solver has the greatest number of revolutions found out by another iteration, with the same budget, for times such as this
  pure def findsMinimum(q: Prob): bool = {
    val t = fmul(q.tt, 999 * ONE / 1000)
    q.tt >= PI and t < facos(q.lam) + fmul(q.lam, fsqrt(ONE - fsq(q.lam))) + PI * (q.tt / PI) }
  // the budget is that of the iteration which is reported, and of no other
  pure def counts(q: Prob, s: int): bool =
    if (s == 10) not(findsMinimum(q)) else if (s == 3) false else q.revs == 0 or s == 8 or s == 12 or s == 13
  pure def apart(a: Obs, b: Obs): int =
    imax(vmax(vsub(a.v1, b.v1)), vmax(vsub(a.v2, b.v2))) * ONE / imax(1, imax(vmax(b.v1), vmax(b.v2)))
  pure def bitsOf(rec: int, j: int): int = (rec / 2^(64 * (HEAD + OBSW * j + 2))) % 2^384
  pure def timeOk(rec: int, j: int): bool = word(rec, HEAD + OBSW * j + 1) / P32 % 2 == 1
  pure def timeFits(rec: int, j: int): bool = word(rec, HEAD + OBSW * j + 1) / P32 / 2 % 2 == 1
  // the accuracy expected with the settings of an observation
  pure def settings(o: Obs): int = if (o.cfg % 2 == 1) TIGHT else DEFAULT
  pure def allowance(q: Prob, o: Obs): int =
    if (isQuadrature(o.solver)) ONE / 100 else tolerance(q, o.solver, settings(o))

  // one step of a ladder of budgets: the clause it breaks and the state after it
  pure def climb(q: Prob, rec: int, j: int, l: Ladder): { clause: str, l: Ladder } = {
    val o = obsAt(rec, j)
    val b = BUDGETS[o.msg]
    val full = o.cfg < 2
    val clause =
      if (o.status > 2) outcomeName(o.status)
      else if (o.status != 0) (if (l.answered and full and not(isQuadrature(o.solver))) "raised with a larger budget than one that suffices" else "")
      else if (not(o.fin)) "velocities are not finite"
      else if (full and errorOf(q, o) > allowance(q, o)) "returned before it converged"
      else if (full and l.answered and apart(o, l.o) > (if (isQuadrature(o.solver)) ONE / 100 else if (fallsBack(o.solver)) 2 * allowance(q, o) else ONE / 10^9)) "another solution with a larger budget"
      else if (full and o.iters < 0) "negative number of iterations"
      else if (full and o.iters > mostIterations(q, o.solver, b)) "more iterations than the budget"
      else if (full and counts(q, o.solver) and o.iters <= l.short) "fewer iterations than it takes"
      else if (full and l.answered and not(isQuadrature(o.solver)) and not(fallsBack(o.solver)) and o.iters != l.n) "another number of iterations with a larger budget"
      else if (full and not(timeOk(rec, j))) "time per iteration is not a non-negative number"
      else if (full and not(timeFits(rec, j))) "the iterations took longer than the call"
      else ""
    { clause: clause, l: if (full and o.status == 0 and o.fin) { answered: true, o: o, n: o.iters, err: 0, short: l.short } else if (full and o.status != 0) { ...l, short: imax(l.short, b) } else l }
  }
  // a call without full output: the same as the call with full output before it
  pure def plain(rec: int, j: int): str =
    if (obsAt(rec, j).status != obsAt(rec, j - 1).status) "another outcome without full output"
    else if (obsAt(rec, j).status == 0 and bitsOf(rec, j) != bitsOf(rec, j - 1)) "other velocities without full output"
    else ""
  // what the tolerance of each step of the ladder implies (1e-3 is a hundred times coarser than the default)
  pure def stepAllowance(q: Prob, o: Obs): int =
    if (o.msg <= 2 or isQuadrature(o.solver)) allowance(q, { ...o, cfg: 0 })
    else if (o.msg == 3) imin(allowance(q, { ...o, cfg: 0 }), 100 * allowance(q, { ...o, cfg: 1 }))
    else allowance(q, { ...o, cfg: 1 })
  // a step of a ladder of tolerances: not worse than before, but for what the tolerances of this step allow
  pure def tighten(q: Prob, rec: int, j: int, l: Ladder): { clause: str, l: Ladder } = {
    val o = obsAt(rec, j)
    if (o.status > 2) { clause: outcomeName(o.status), l: l }
    else if (o.status != 0 or not(o.fin)) { clause: if (o.status == 0) "velocities are not finite" else "", l: l }
    else {
      val e = errorOf(q, o)
      { clause: if (l.answered and e > imax(l.err, stepAllowance(q, o))) "worse with tighter tolerances"
                else if (o.msg == TOLERANCES - 1 and e > stepAllowance(q, o)) "tight tolerances are not met" else "",
        l: { ...l, answered: true, o: o, n: 0, err: if (l.answered) imin(e, l.err) else e } } }
  }

  type Fail = { rec: int, obs: int, clause: str }
  var i: int
  var fails: List[Fail]
  var met: int -> int          // observations by status, settings and solver
  var needs: int -> int        // ladders by solver and budget that sufficed first (999: none)
  pure def more(m: int -> int, k: int): int -> int = if (m.keys().contains(k)) m.set(k, m.get(k) + 1) else m.put(k, 1)
  action init = all { i' = 0, fails' = [], met' = Map(), needs' = Map() }
  action step = all {
    i < TAPE.length(),
    val rec = TAPE[i]
    val q = problem(pickOf(rec))
    val o0 = obsAt(rec, 0)
    val start = { clauses: [], l: { answered: false, o: o0, n: 0, err: 0, short: -1 }, first: 999 }
    val r = range(0, countOf(rec)).foldl(start, (s, j) => {
      val o = obsAt(rec, j)
      val c = if (o.cfg == 4) tighten(q, rec, j, s.l) else climb(q, rec, j, s.l)
      val p = if (o.cfg == 2 or o.cfg == 3) plain(rec, j) else ""
      val cl = if (c.clause != "") c.clause else p
      { clauses: if (cl == "") s.clauses else s.clauses.append({ rec: i, obs: j, clause: cl }), l: c.l,
        first: if (s.first == 999 and o.status == 0 and o.cfg < 2) BUDGETS[o.msg] else s.first } })
    all {
      i' = i + 1,
      fails' = fails.concat(r.clauses),
      needs' = if (o0.cfg < 2) more(needs, o0.solver * 1000 + r.first) else needs,
      met' = range(0, countOf(rec)).foldl(met, (m, j) => { val o = obsAt(rec, j)  more(m, (o.status * 100 + o.cfg) * 100 + o.solver) }) }
  }
}
