// Generator machine: a run of requests, one per step. LO, N: the classes visited in turn.
module genrun {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"
  const CLASSES: List[int]
  const FIRST: int
  const MAXREV: int
  const UNITSET: List[int]
  const ORIENT: List[int]    // kinds of orientation, drawn from
  var n: int
  var pick: Pick
  var prob: Prob

  action init = all { n' = FIRST, pick' = PICK0, prob' = bad(0) }
  action step = {
    nondet a = 0.to(9999).oneOf()
    nondet b = 0.to(9999).oneOf()
    nondet c = 0.to(9999).oneOf()
    nondet d = 0.to(9999).oneOf()
    nondet e = 0.to(9999).oneOf()
    nondet f = 0.to(9999).oneOf()
    nondet o = 0.to(ORIENT.length() - 1).oneOf()
    nondet qa = (-9).to(9).oneOf()
    nondet qb = (-9).to(9).oneOf()
    nondet qc = (-9).to(9).oneOf()
    nondet qd = (-9).to(9).oneOf()
    nondet u = 0.to(UNITSET.length() - 1).oneOf()
    nondet m = 1.to(MAXREV).oneOf()
    val k = CLASSES[n % CLASSES.length()]
    val g = { k: k, a: a, b: b, c: c, d: d, e: e, f: f, o: ORIENT[o], qa: qa, qb: qb, qc: qc, qd: qd, u: UNITSET[u], m: m }
    all { n' = n + 1, pick' = g, prob' = problem(g) }
  }
  // every generated problem satisfies the two-body problem, by an independent formula
  val sound = prob.ok implies certified(prob)
}
