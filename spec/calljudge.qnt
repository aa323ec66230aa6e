// Trace machine of the calls: a batch of recorded calls per step; its end has to be one the lifecycle allows.
module calljudge {
  import fixed.* from "fixed"
  import tape.* from "tape"
  import calls.* from "calls"
  import callreq.* from "callreq"
  const TAPE: List[List[int]]
  const BATCH: int
  var i: int
  var fails: List[{ rec: int, clause: str }]
  var met: int -> int          // calls by reasons (bit mask), status and reason given
  pure def pickOf(r: int): CallPick = {
    s: slot(r, 0), k: slot(r, 1), mask: slot(r, 2), a: slot(r, 3), b: slot(r, 4), c: slot(r, 5), d: slot(r, 6), e: slot(r, 7), f: slot(r, 8),
    m: slot(r, 9), w: slot(r, 10), it: slot(r, 11) }
  pure def code(c: Set[int]): int = c.fold(0, (s, k) => s + 2^k)
  pure def verdict(q: Req, c: Set[int], status: int, reason: int): str =
    if (status == 4) "did not end"
    else if (status == 5) "returned something else than two velocities"
    else if (status == 3) "raised something else than ValueError or RuntimeError"
    else if (allowed(c, status, reason)) ""
    else if (c == Set() and reason == COLLINEAR and blurred(q)) ""
    else if (c == Set()) "refused a valid request"
    else if (status == 0) "answered a request to refuse"
    else if (c.intersect(VALIDATION) != Set() and status == 2) "raised RuntimeError for invalid parameters"
    else "gave another reason"
  action init = all { i' = 0, fails' = [], met' = Map() }
  action step = all {
    i < TAPE.length(),
    val r = TAPE[i].foldl({ j: i * BATCH, fails: fails, met: met }, (s, rec) => {
      val q = concrete(pickOf(rec))
      val c = causes(q)
      val st = slot(rec, 12)
      val rs = slot(rec, 13)
      val v = verdict(q, c, st, rs)
      val k = (code(c) * 10 + st) * 10 + rs
      { j: s.j + 1, fails: if (v == "") s.fails else s.fails.append({ rec: s.j, clause: v }),
        met: if (s.met.keys().contains(k)) s.met.set(k, s.met.get(k) + 1) else s.met.put(k, 1) } })
    all { i' = i + 1, met' = r.met, fails' = r.fails }
  }
}
