// The lifecycle of one call as a finite machine, for exhaustive checking (TLC, Apalache): every request made of small
// values, every budget up to 3, every number of iterations a problem may need.
module lifecycle {
  import calls.* from "calls"
  var q: Req
  var need: int               // iterations the problem needs; 4: more than any budget tried here
  var phase: Phase
  var out: { status: int, reason: int, numiter: int }   // what the caller sees; status -1 while the call lasts
  pure val VECS: Set[List[int]] = Set([0, 0, 0], [1, 0, 0], [2, 0, 0], [-1, 0, 0], [0, 1, 1], [0, 0, 0, 0], [1, 1])
  pure val NONE = { status: -1, reason: 0, numiter: -1 }

  action init = {
    nondet s = Set(0, 4).oneOf()
    nondet mu = Set(-1, 0, 1).oneOf()
    nondet tof = Set(-1, 0, 1).oneOf()
    nondet r1 = VECS.oneOf()
    nondet r2 = VECS.oneOf()
    nondet m = Set(-1, 0, 1).oneOf()
    nondet it = Set(0, 1, 3).oneOf()
    nondet full = Set(true, false).oneOf()
    nondet k = Set(0, 1, 3, 4).oneOf()
    nondet odd = Set(0, 9).oneOf()
    all {
      q' = { ...SOMEREQ, solver: s, mu: { n: mu, e: 0 }, tof: { n: tof, e: 0 }, r1: r1, r2: r2, revs: m, maxiter: it, full: full, odd: odd },
      need' = k, phase' = Received, out' = NONE }
  }
  action refuse = all {
    phase == Received, causes(q) != Set(),
    nondet c = reasons(causes(q)).oneOf()
    nondet st = (if (c == COLLINEAR) Set(1, 2) else Set(1)).oneOf()
    all { phase' = Refused(c), out' = { status: st, reason: c, numiter: -1 }, q' = q, need' = need }
  }
  action start = all { phase == Received, causes(q) == Set(), phase' = Iterating(0), out' = out, q' = q, need' = need }
  pure def itersOf(p: Phase): int = match p { | Iterating(k) => k | Converged(k) => k | Exhausted(k) => k | Received => -1 | Refused(_) => -2 }
  pure def isIterating(p: Phase): bool = match p { | Iterating(_) => true | Received => false | Refused(_) => false | Converged(_) => false | Exhausted(_) => false }
  pure def isConverged(p: Phase): bool = match p { | Converged(_) => true | Received => false | Refused(_) => false | Iterating(_) => false | Exhausted(_) => false }
  pure def isRefused(p: Phase): bool = match p { | Refused(_) => true | Received => false | Converged(_) => false | Iterating(_) => false | Exhausted(_) => false }
  action iterate = all {
    isIterating(phase), itersOf(phase) < q.maxiter, itersOf(phase) < need,
    phase' = Iterating(itersOf(phase) + 1), out' = out, q' = q, need' = need }
  action converge = all {
    isIterating(phase), itersOf(phase) == need,
    phase' = Converged(need), out' = { status: 0, reason: 0, numiter: if (q.full) need else -1 }, q' = q, need' = need }
  action exhaust = all {
    isIterating(phase), itersOf(phase) == q.maxiter, itersOf(phase) < need,
    nondet st = Set(1, 2).oneOf()
    all { phase' = Exhausted(q.maxiter), out' = { status: st, reason: 0, numiter: -1 }, q' = q, need' = need } }
  action rest = all { out.status != -1, phase' = phase, out' = out, q' = q, need' = need }
  action step = any { refuse, start, iterate, converge, exhaust, rest }

  // what the caller sees is allowed for the request
  val outcomesAllowed = out.status == -1 or allowed(causes(q), out.status, out.reason)
  // velocities only for requests with no reason to refuse them, within the budget
  val neverAnswersBadRequests = isConverged(phase) implies (causes(q) == Set() and need <= q.maxiter)
  val withinBudget = itersOf(phase) <= q.maxiter
  val reportsIterations = (out.status == 0 and q.full) implies (out.numiter >= 0 and out.numiter <= q.maxiter)
  // the end of a call is decided by the request and by the iterations its problem needs
  val decided = out.status == 0 implies need <= q.maxiter
  val refusedForAReason = isRefused(phase) implies causes(q) != Set()
  val inv = and { outcomesAllowed, neverAnswersBadRequests, withinBudget, reportsIterations, decided, refusedForAReason }
  // (TLC checks as well that no call is stuck before its end, and that every call ends)
  val ended = out.status != -1
}
