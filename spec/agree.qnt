// Trace machine of agreement: all the outcomes of one request at once.  Any two answers are the same, and the robust solvers answer
// every ordinary direct transfer.
module agree {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"
  import tape.* from "tape"
  import answers.* from "answers"
  import accuracy.* from "accuracy"
  import hub.* from "hub"
  import verdicts.* from "verdicts"
  import lattice.* from "lattice"
  const TAPE: List[int]
  type Fail = { rec: int, obs: int, other: int, clause: str }
  var i: int
  var fails: List[Fail]
  var worst: int -> int      // greatest disagreement by solver and settings, in units of 1e-18
  var met: int -> int        // pairs of answers compared, by solver and settings; at 1000: refusals
  pure def latOf(rec: int): LatPick = { a: slot(rec, 0), b: slot(rec, 1), c: slot(rec, 2), d: slot(rec, 3), e: slot(rec, 4), f: slot(rec, 5),
    k: slot(rec, 6), t: slot(rec, 7), m: slot(rec, 8), w: slot(rec, 9) }
  pure def slack(q: Lat, o: Obs): int = {
    val b = bound(o.solver, o.cfg, q.par, q.men)
    if (q.near) imax(b, ONE / 100) else if (o.solver == 11) imax(b, 3 * ONE / 10^4) else b }
  pure def apart(a: Obs, b: Obs): int =
    imax(vmax(vsub(a.v1, b.v1)), vmax(vsub(a.v2, b.v2))) * ONE / imax(vmax(a.v1), imax(vmax(a.v2), imax(vmax(b.v1), vmax(b.v2))))
  // which solvers have to answer
  pure def owes(q: Lat, o: Obs): bool =
    q.ordinary and q.easy and ROBUST.contains(o.solver) and not(q.demanding) and (o.cfg == 2 or (o.cfg == 0 and not(Set(11, 13).contains(o.solver))))
  pure def bump(m: int -> int, k: int, v: int): int -> int =
    if (m.keys().contains(k)) (if (m.get(k) < v) m.set(k, v) else m) else m.put(k, v)
  pure def more(m: int -> int, k: int): int -> int = if (m.keys().contains(k)) m.set(k, m.get(k) + 1) else m.put(k, 1)
  pure def alone(q: Lat, o: Obs): str =
    if (o.status > 2) outcomeName(o.status) else if (o.status != 0) (if (owes(q, o)) "a robust solver refuses an ordinary transfer" else "")
    else if (not(o.fin)) "velocities are not finite" else ""
  action init = all { i' = 0, fails' = [], worst' = Map(), met' = Map() }
  action step = all {
    i < TAPE.length(),
    val rec = TAPE[i]
    val q = lat(latOf(rec))
    val os = range(0, countOf(rec)).foldl([], (l, j) => l.append(obsAt(rec, j)))
    val good = range(0, os.length()).foldl([], (l, j) => if (os[j].status == 0 and os[j].fin) l.append(j) else l)
    val pairs = range(0, good.length()).foldl([], (l, m) => range(0, m).foldl(l, (k, n) => k.append((good[n], good[m], apart(os[good[n]], os[good[m]])))))
    all {
      i' = i + 1,
      worst' = pairs.foldl(worst, (w, p) => bump(bump(w, os[p._1].cfg * 100 + os[p._1].solver, p._3 / 10^42), os[p._2].cfg * 100 + os[p._2].solver, p._3 / 10^42)),
      met' = os.foldl(pairs.foldl(met, (w, p) => more(more(w, os[p._1].cfg * 100 + os[p._1].solver), os[p._2].cfg * 100 + os[p._2].solver)),
                      (w, o) => if (o.status != 0) more(w, 1000 + o.cfg * 100 + o.solver) else w),
      fails' = pairs.foldl(range(0, os.length()).foldl(fails, (l, j) => {
          val c = alone(q, os[j])
          if (c == "") l else l.append({ rec: i, obs: j, other: j, clause: c }) }),
        (l, p) => if (p._3 > slack(q, os[p._1]) + slack(q, os[p._2])) l.append({ rec: i, obs: p._1, other: p._2, clause: "two answers to the same request" }) else l)
    }
  }
}
