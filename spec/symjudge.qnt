// Trace machine of the symmetries: the answers of one solver to a problem and to its image come in pairs.
module symjudge {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"
  import tape.* from "tape"
  import answers.* from "answers"
  import accuracy.* from "accuracy"
  import hub.* from "hub"
  import verdicts.* from "verdicts"
  import symmetry.* from "symmetry"
  const TAPE: List[int]
  type Fail = { rec: int, obs: int, clause: str }
  var i: int
  var fails: List[Fail]
  var worst: int -> int        // greatest difference by solver and kind of word, in units of 1e-18
  var met: int -> int          // pairs by kind of word, answered (0 none, 1 one of them, 2 both) and solver
  pure def bump(m: int -> int, k: int, v: int): int -> int =
    if (m.keys().contains(k)) (if (m.get(k) < v) m.set(k, v) else m) else m.put(k, v)
  pure def more(m: int -> int, k: int): int -> int = if (m.keys().contains(k)) m.set(k, m.get(k) + 1) else m.put(k, 1)
  pure def answered(o: Obs): int = if (o.status == 0) 1 else 0
  // difference between the answer to the image and the image of the answer, relative to the speeds of the solution
  pure def discord(w: int, t: Prob, a: Obs, b: Obs): int = {
    val c = carried(w, { v1: a.v1, v2: a.v2 })
    imax(vmax(vsub(c.v1, b.v1)), vmax(vsub(c.v2, b.v2))) * ONE / imax(vmax(t.v1), vmax(t.v2)) }
  // Turns, mirrors and units leave the iterations as they are: what remains is the rounding, as the problem amplifies it.  The motion
  // backwards takes other iterations, which end within the tolerances.
  pure def allowed(w: int, q: Prob, s: int, cfg: int): int = {
    val t = 2 * tolerance(q, s, cfg)
    if (kindOf(w) == 2 or nearMinimumTime(q)) t else imin(t, ONE / (if (s == 2 or s == 3 or s == 7) 10^5 else 10^6)) }
  pure def apart(w: int, q: Prob, t: Prob, a: Obs, b: Obs): str =
    if (a.status > 2) outcomeName(a.status) else if (b.status > 2) outcomeName(b.status)
    else if (a.status != 0 or b.status != 0) ""
    else if (not(a.fin) or not(b.fin)) "velocities are not finite"
    else if (discord(w, t, a, b) > allowed(w, q, a.solver, a.cfg)) "the answer to the image is not the image of the answer"
    else ""
  action init = all { i' = 0, fails' = [], worst' = Map(), met' = Map() }
  action step = all {
    i < TAPE.length(),
    val rec = TAPE[i]
    val q = problem(pickOf(rec))
    val w = slot(rec, 15)
    val t = image(w, q)
    val kind = kindOf(w)
    val ps = range(0, countOf(rec) / 2).foldl([], (l, j) => l.append((obsAt(rec, 2 * j), obsAt(rec, 2 * j + 1))))
    all {
      i' = i + 1,
      worst' = ps.foldl(worst, (m, p) => if (p._1.status == 0 and p._2.status == 0 and p._1.fin and p._2.fin) bump(m, (kind * 100 + p._1.cfg) * 100 + p._1.solver, discord(w, t, p._1, p._2) / 10^42) else m),
      met' = ps.foldl(met, (m, p) => more(m, (kind * 10 + answered(p._1) + answered(p._2)) * 100 + p._1.solver)),
      fails' = range(0, ps.length()).foldl(fails, (l, j) => {
        val c = apart(w, q, t, ps[j]._1, ps[j]._2)
        if (c == "") l else l.append({ rec: i, obs: 2 * j + 1, clause: c }) })
    }
  }
}
