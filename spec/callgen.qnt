// Generator machine of requests: one per step, the solvers in turn. MASKS: what may be made wrong.
module callgen {
  import calls.* from "calls"
  import callreq.* from "callreq"
  const MASKS: List[int]
  const FIRST: int
  var n: int
  var pick: CallPick
  var req: Req
  action init = all { n' = FIRST, pick' = CALL0, req' = SOMEREQ }
  action step = {
    nondet a = 0.to(999999).oneOf()
    nondet b = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet d = 0.to(999999).oneOf()
    nondet e = 0.to(999999).oneOf()
    nondet f = 0.to(999999).oneOf()
    nondet m = 0.to(9).oneOf()
    nondet w = 0.to(23).oneOf()
    nondet it = Set(35, 35, 100, 3, 0).oneOf()
    nondet k = 0.to(MASKS.length() - 1).oneOf()
    val g = { s: n % 14, k: 0, mask: MASKS[k], a: a, b: b, c: c, d: d, e: e, f: f, m: m, w: w, it: it }
    all { n' = n + 1, pick' = g, req' = concrete(g) }
  }
}
