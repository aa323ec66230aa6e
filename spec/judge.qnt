// Trace machine of the answers: one step per recorded request, all its recorded outcomes judged at once.
module judge {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"
  import tape.* from "tape"
  import answers.* from "answers"
  import accuracy.* from "accuracy"
  import hub.* from "hub"
  import verdicts.* from "verdicts"
  const TAPE: List[int]
  const RULE: int
  type Fail = { rec: int, obs: int, clause: str }
  var i: int
  var fails: List[Fail]
  var worst: int -> int      // worst error by settings, solver and class, in units of 1e-18
  var met: int -> int        // outcomes by status, settings, solver and class
  pure def bump(m: int -> int, k: int, v: int): int -> int =
    if (m.keys().contains(k)) (if (m.get(k) < v) m.set(k, v) else m) else m.put(k, v)
  pure def more(m: int -> int, k: int): int -> int = if (m.keys().contains(k)) m.set(k, m.get(k) + 1) else m.put(k, 1)
  action init = all { i' = 0, fails' = [], worst' = Map(), met' = Map() }
  action step = all {
    i < TAPE.length(),
    val rec = TAPE[i]
    val q = problem(pickOf(rec))
    val os = range(0, countOf(rec)).foldl([], (l, j) => l.append(obsAt(rec, j)))
    all {
      i' = i + 1,
      worst' = os.foldl(worst, (m, o) => if (o.status == 0 and o.fin) bump(m, (o.cfg * 100 + o.solver) * 100 + q.cls, errorOf(q, o) / 10^42) else m),
      met' = os.foldl(met, (m, o) => more(m, ((o.status * 100 + o.cfg) * 100 + o.solver) * 100 + q.cls)),
      fails' = range(0, os.length()).foldl(fails, (l, j) => {
        val c = verdict(RULE, q, os[j])
        if (c == "") l else l.append({ rec: i, obs: j, clause: c }) })
    }
  }
}
