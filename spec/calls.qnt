// The life of a call: a request is received, refused or iterated upon, and it ends. What a caller may observe
// at the end is decided here, by the exact values of the request.
module calls {
  // numbers of a request are n * 2^e, exactly
  type Num = { n: int, e: int }
  type Req = { solver: int, mu: Num, tof: Num, r1: List[int], e1: int, r2: List[int], e2: int, revs: int, pro: bool, low: bool, full: bool,
               maxiter: int, how: int, odd: int }
  // odd: what is not a finite number: 0 nothing, 1-3 mu, 4-6 tof, 7-9 a component of r1, 10-12 of r2 (not a number, infinite, minus infinite);
  // 13-15 r1 is given as a column, as a row, as three rows; 16-18 r2
  pure val MULTI = Set(4, 5, 8, 10, 11, 12, 13)
  // reasons to refuse a request
  pure val MU = 1
  pure val DIMENSION = 2
  pure val NULL = 3
  pure val EQUAL = 4
  pure val TOF = 5
  pure val REVS = 6
  pure val UNSUPPORTED = 7       // several revolutions, of a solver for direct transfers
  pure val COLLINEAR = 8         // no plane of motion
  pure val NOTFINITE = 9
  pure val VALIDATION = Set(MU, DIMENSION, NULL, EQUAL, TOF, REVS, NOTFINITE)
  pure val NAMES = ["", "gravitational parameter not positive", "vector not three-dimensional", "null vector", "equal vectors",
                    "time of flight not positive", "negative number of revolutions", "multi-revolution scenario", "collinear vectors", "vector not finite"]

  pure def isNull(v: List[int]): bool = range(0, v.length()).foldl(true, (b, k) => b and v[k] == 0)
  pure def shift(n: int, e: int): int = n * 2^e
  // a * 2^ea == b * 2^eb
  pure def same(a: int, ea: int, b: int, eb: int): bool = if (ea <= eb) a == shift(b, eb - ea) else shift(a, ea - eb) == b
  pure def areEqual(q: Req): bool = q.r1.length() == q.r2.length() and
    range(0, q.r1.length()).foldl(true, (b, k) => b and same(q.r1[k], q.e1, q.r2[k], q.e2))
  // exactly collinear (the scales do not matter)
  pure def areCollinear(a: List[int], b: List[int]): bool =
    a[1] * b[2] == a[2] * b[1] and a[2] * b[0] == a[0] * b[2] and a[0] * b[1] == a[1] * b[0]
  // collinear within 1e-12: such a plane of motion is not known from the doubles that hold the vectors
  pure def sq(a: List[int]): int = a[0] * a[0] + a[1] * a[1] + a[2] * a[2]
  pure def almostCollinear(a: List[int], b: List[int]): bool = {
    val c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    sq(c) * 10^24 <= sq(a) * sq(b) }
  pure def blurred(q: Req): bool = q.r1.length() == 3 and q.r2.length() == 3 and almostCollinear(q.r1, q.r2)
  pure def causes(q: Req): Set[int] = {
    val matrix = q.odd >= 13
    val dim = q.r1.length() != 3 or q.r2.length() != 3 or matrix
    val odd1 = q.odd >= 7 and q.odd <= 9
    val odd2 = q.odd >= 10 and q.odd <= 12
    val nul = (isNull(q.r1) and not(odd1)) or (isNull(q.r2) and not(odd2))
    val odd = odd1 or odd2
    Set(
      if (q.mu.n <= 0 or (q.odd >= 1 and q.odd <= 3)) MU else 0,
      if (dim) DIMENSION else 0,
      if (nul) NULL else 0,
      if (areEqual(q) and not(odd)) EQUAL else 0,
      if (odd) NOTFINITE else 0,
      if (q.tof.n <= 0 or (q.odd >= 4 and q.odd <= 6)) TOF else 0,
      if (q.revs < 0) REVS else 0,
      if (q.revs > 0 and not(MULTI.contains(q.solver))) UNSUPPORTED else 0,
      if (not(dim) and not(nul) and not(odd) and areCollinear(q.r1, q.r2)) COLLINEAR else 0).exclude(Set(0))
  }

  // ---- the machine ------------------------------------------------------------------------------------
  type Phase = Received | Refused(int) | Iterating(int) | Converged(int) | Exhausted(int)
  // reasons a call in its first phase may give: the validation comes before everything which needs valid parameters, and a
  // solver for direct transfers may refuse several revolutions at any moment
  pure def reasons(c: Set[int]): Set[int] =
    if (c.intersect(VALIDATION) != Set()) c.intersect(VALIDATION.union(Set(UNSUPPORTED))) else c
  // outcomes: status (0 returned, 1 ValueError, 2 RuntimeError) and reason given (0 another one)
  pure def allowed(c: Set[int], status: int, reason: int): bool =
    if (c == Set()) (status == 0 or ((status == 1 or status == 2) and reason == 0))
    else if (c.intersect(VALIDATION) != Set()) status == 1 and reasons(c).contains(reason)
    else if (c.contains(UNSUPPORTED)) (status == 1 and reason == UNSUPPORTED) or (c.contains(COLLINEAR) and (status == 1 or status == 2) and reason == COLLINEAR)
    else (status == 1 or status == 2) and (reason == COLLINEAR or reason == 0)      // (too short a time of flight, for instance)

  pure val SOMEREQ: Req = { solver: 0, mu: { n: 1, e: 0 }, tof: { n: 1, e: 0 }, r1: [1, 0, 0], e1: 0, r2: [0, 1, 0], e2: 0, revs: 0, pro: true,
                            low: true, full: false, maxiter: 35, how: 0, odd: 0 }
}
