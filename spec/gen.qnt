// The generator of Lambert problems: a pick is a tuple of small integers, `problem` turns it into a request
// with its known solution. The same definition is used to generate (gen machine) and to judge (trace machine).
module gen {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"

  // k: class; a..f in 0..9999: reals of the class; o: kind of orientation; qa..qd in -9..9; u: units; m: revolutions
  type Pick = { k: int, a: int, b: int, c: int, d: int, e: int, f: int, o: int, qa: int, qb: int, qc: int, qd: int, u: int, m: int }
  pure val PICK0: Pick = { k: 0, a: 0, b: 0, c: 0, d: 0, e: 0, f: 0, o: 1, qa: 1, qb: 0, qc: 0, qd: 0, u: 0, m: 0 }

  // linear map of 0..9999 onto [lo, hi]
  pure def lin(a: int, lo: int, hi: int): int = lo + (hi - lo) * a / 9999
  // geometric map of 0..9999 onto [lo, hi], lo > 0
  pure def geo(a: int, lo: int, hi: int): int = fmul(lo, fexp(flog(hi * ONE / lo) * a / 9999))
  pure def deg(n: int): int = PI * n / 180
  // angle in (lo, 2 pi - lo) with a gap of +-gap around pi
  pure def sweep(a: int, lo: int, gap: int): int = {
    val t = lin(a, lo, TWO_PI - lo - 2 * gap)
    if (t < PI - gap) t else t + 2 * gap
  }

  pure val CUBE: List[Quat] = [
    { a: 1, b: 0, c: 0, d: 0 }, { a: 0, b: 1, c: 0, d: 0 }, { a: 0, b: 0, c: 1, d: 0 }, { a: 0, b: 0, c: 0, d: 1 },
    { a: 1, b: 0, c: 0, d: 1 }, { a: 1, b: 0, c: 0, d: -1 }, { a: 0, b: 1, c: 1, d: 0 }, { a: 0, b: 1, c: -1, d: 0 } ]

  // orientation of the orbital plane
  pure def orient(g: Pick): Quat =
    if (g.o == 1) { a: 10 + g.qa, b: 0, c: 0, d: g.qd }                         // coplanar, prograde
    else if (g.o == 2) { a: 0, b: 10 + g.qb, c: g.qc, d: 0 }                    // coplanar, retrograde
    else if (g.o == 3) { a: 10 + g.qa, b: g.qb, c: 0, d: 0 }                    // node line along the first axis
    else if (g.o == 4) {                                                        // nearly polar
      val z = { a: 10 + g.qa, d: g.qd }
      val t = { a: 400 + g.e / 100, b: if (g.f % 2 == 0) 399 + g.e / 100 else 401 + g.e / 100 }
      { a: z.a * t.a, b: z.a * t.b, c: z.d * t.b, d: z.d * t.a } }
    else if (g.o == 7) { a: 10 + g.qa, b: 10 + g.qa, c: g.qd, d: g.qd }                  // exactly polar
    else if (g.o == 5) CUBE[g.f % 8]                                            // along the axes
    else if (g.o == 6) {                                                        // almost coplanar: tilt of about 1e-3
      val z = { a: 10 + g.qa, d: g.qd }
      if (g.f % 2 == 0) { a: z.a * 1000, b: z.a * (1 + g.e / 2500), c: z.d * (1 + g.e / 2500), d: z.d * 1000 }
      else { a: z.a * (1 + g.e / 2500), b: z.a * 1000, c: z.d * 1000, d: z.d * (1 + g.e / 2500) } }
    else if (g.o == 8) {                                                        // polar but for 10^-3 to 10^-10
      val n = (1 + g.f % 9) * 10^(3 + g.e % 7)
      val z = { a: 10 + g.qa, d: g.qd }
      val b = if (g.f % 2 == 0) n - 1 else n + 1
      { a: z.a * n, b: z.a * b, c: z.d * b, d: z.d * n } }
    else if (g.o == 9) {                                                        // coplanar but for 10^-3 to 10^-13
      val n = (1 + g.f % 9) * 10^(3 + g.e % 10)
      val z = { a: 10 + g.qa, d: g.qd }
      if (g.f % 2 == 0) { a: z.a * n, b: z.a, c: z.d, d: z.d * n } else { a: z.a, b: z.a * n, c: z.d * n, d: z.d } }
    else { a: g.qa, b: g.qb, c: g.qc, d: g.qd }
  pure def orientOk(g: Pick, q: Quat): bool =
    (q.a != 0 or q.b != 0 or q.c != 0 or q.d != 0) and
    (g.o == 7 or g.o == 8 or iabs(polar(q)) >= (if (g.o == 4) ONE / 1000 else ONE / 30))

  pure def bad(cls: int): Prob = {
    cls: cls, mu: ONE, len: ONE, tim: ONE, r1: vec(ONE, 0, 0), r2: vec(0, ONE, 0), tof: ONE, revs: 0, pro: true, low: true,
    v1: vec(0, ONE, 0), v2: vec(-ONE, 0, 0), c1: vec(ONE, 0, 0), c2: vec(0, ONE, 0), w1: vec(0, ONE, 0), ctof: ONE,
    hz: ONE, slope: ONE, x: ONE / 2, lam: ONE / 2, tt: ONE, ok: false }

  // number of direct classes
  pure val NDIRECT = 19
  pure val NMULTI = 5

  // 10^-n for n in 0..12
  pure def tenth(n: int): int = ONE / 10^n

  // how close the two solutions of a multi-revolution problem are
  pure def wellSeparated(q: Prob): bool = q.revs == 0 or iabs(q.slope) >= ONE / 20
  pure def base(g: Pick): Prob = {
    val q = orient(g)
    if (not(orientOk(g, q))) bad(g.k) else {
      val p = lin(g.a, ONE / 2, 2 * ONE)
      val th = sweep(g.c, deg(4), deg(4))
      val nu1 = lin(g.d, -PI, PI)
      // -- direct transfers -------------------------------------------------------------------------------
      if (g.k == 0) fromOrbit(g.k, p, lin(g.b, 0, 95 * ONE / 100), nu1, nu1 + th, q, g.u, 0)         // elliptic
      else if (g.k == 1) {                                                                        // hyperbolic
        val e = ONE + geo(g.b, ONE / 50, 19 * ONE)
        val lim = nuLimit(e)
        val n1 = lin(g.d, -95 * lim / 100, 80 * lim / 100)
        val n2 = lin(g.c, n1 + deg(4), 97 * lim / 100)
        if (iabs(n2 - n1 - PI) < deg(4) or n2 <= n1) bad(g.k) else fromOrbit(g.k, p, e, n1, n2, q, g.u, 0) }
      else if (g.k == 2 or g.k == 3 or g.k == 4) {                               // parabola and its neighbours
        val n1 = lin(g.d, -deg(150), deg(100))
        val n2 = lin(g.c, n1 + deg(4), deg(150))
        val small = tenth(2 + g.b % 8) * (1 + g.e % 9)
        val e = if (g.k == 2) ONE else if (g.k == 3) ONE - small else ONE + small
        if (iabs(n2 - n1 - PI) < deg(4) or n2 <= n1) bad(g.k) else fromOrbit(g.k, p, e, n1, n2, q, g.u, 0) }
      else if (g.k == 5) fromOrbit(g.k, p, 0, nu1, nu1 + th, q, g.u, 0)                                // circular
      else if (g.k == 6) {                                                                     // equal distances
        val e = if (g.f % 3 == 0) ONE + geo(g.b, ONE / 50, 5 * ONE) else lin(g.b, 0, 9 * ONE / 10)
        if (e < ONE and g.d % 2 == 0) fromOrbit(g.k, p, e, PI - th / 2, PI + th / 2, q, g.u, 0)
        else if (th / 2 < 97 * nuLimit(e) / 100) fromOrbit(g.k, p, e, -th / 2, th / 2, q, g.u, 0) else bad(g.k) }
      else if (g.k == 7) {                                                                       // from or to an apse
        val e = lin(g.b, ONE / 100, 9 * ONE / 10)
        val n1 = if (g.d % 4 == 0) 0 else if (g.d % 4 == 1) PI else if (g.d % 4 == 2) -th else PI - th
        fromOrbit(g.k, p, e, n1, n1 + th, q, g.u, 0) }
      else if (g.k == 8) fromGeometry(g.k, ONE, geo(g.b, ONE / 4, 4 * ONE), th, 0, nu1, q, g.u, 0)   // minimum energy
      else if (g.k == 9) fromGeometry(g.k, ONE, geo(g.b, ONE / 5, 5 * ONE), th, lin(g.a, -8 * ONE / 10, 15 * ONE / 10), nu1, q, g.u, 0)
      else if (g.k == 10) fromGeometry(g.k, ONE, geo(g.b, ONE / 5, 5 * ONE), th, geo(g.a, 12 * ONE / 10, 5 * ONE), nu1, q, g.u, 0) // fast
      else if (g.k == 11) fromGeometry(g.k, ONE, geo(g.b, ONE / 4, 4 * ONE), th, lin(g.a, -9 * ONE / 10, -2 * ONE / 10), nu1, q, g.u, 0) // slow
      else if (g.k == 12) fromGeometry(g.k, ONE, if (g.f % 2 == 0) geo(g.b, 10 * ONE, 60 * ONE) else geo(g.b, ONE / 60, ONE / 10), th,
                                       lin(g.a, -6 * ONE / 10, 14 * ONE / 10), nu1, q, g.u, 0)      // unequal distances
      else if (g.k == 13) fromGeometry(g.k, ONE, geo(g.b, ONE / 4, 4 * ONE), if (g.f % 2 == 0) HALF_PI else 3 * HALF_PI,
                                       lin(g.a, -7 * ONE / 10, 14 * ONE / 10), (g.d % 4) * HALF_PI, q, g.u, 0)  // right angles
      else if (g.k == 14) fromGeometry(g.k, ONE, geo(g.b, ONE / 4, 4 * ONE),                        // nearly 180 degrees
                                       if (g.f % 2 == 0) PI - lin(g.c, deg(3), deg(8)) else PI + lin(g.c, deg(3), deg(8)),
                                       lin(g.a, -7 * ONE / 10, 14 * ONE / 10), nu1, q, g.u, 0)
      else if (g.k == 15) fromGeometry(g.k, ONE, geo(g.b, ONE / 4, 4 * ONE),                        // short or nearly full turn
                                       if (g.f % 2 == 0) lin(g.c, deg(3), deg(12)) else TWO_PI - lin(g.c, deg(3), deg(12)),
                                       lin(g.a, -7 * ONE / 10, 14 * ONE / 10), nu1, q, g.u, 0)
      else if (g.k == 16) {                                                                      // through an apse, asymmetric
        val e = lin(g.b, ONE / 20, 9 * ONE / 10)
        val n1 = (if (g.f % 2 == 0) 0 else PI) - lin(g.d, th / 10, 9 * th / 10)
        fromOrbit(g.k, p, e, n1, n1 + th, q, g.u, 0) }
      else if (g.k == 17) fromGeometry(g.k, ONE, ONE, th, lin(g.a, -8 * ONE / 10, 15 * ONE / 10), nu1, q, g.u, 0)  // equal distances
      else if (g.k == 18) fromGeometry(g.k, ONE, geo(g.b, ONE / 4, 4 * ONE), th,                     // close to the minimum-energy ellipse
                                       (if (g.f % 2 == 0) 1 else -1) * tenth(2 + g.d % 11) * (1 + g.e % 9), nu1, q, g.u, 0)
      else if (g.k == 25) fromGeometry(g.k, ONE, geo(g.b, 2 * ONE / 3, 3 * ONE / 2), lin(g.c, deg(3), deg(45)),  // short arcs
                                       lin(g.a, ONE / 2, 12 * ONE / 10), nu1, q, g.u, 0)
      // -- multi-revolution transfers ----------------------------------------------------------------------
      else if (g.k == 20) fromOrbit(g.k, p, lin(g.b, 0, 9 * ONE / 10), nu1, nu1 + th, q, g.u, g.m)
      else if (g.k == 21) fromGeometry(g.k, ONE, geo(g.b, ONE / 4, 4 * ONE), th, lin(g.a, -85 * ONE / 100, 85 * ONE / 100), nu1, q, g.u, g.m)
      else if (g.k == 22) fromOrbit(g.k, p, 0, nu1, nu1 + th, q, g.u, g.m)                                  // circular
      else if (g.k == 23) fromGeometry(g.k, ONE, ONE, th, lin(g.a, -8 * ONE / 10, 8 * ONE / 10), nu1, q, g.u, g.m)
      else if (g.k == 24) {                                                               // close to the minimum-time ellipse
        val r2 = geo(g.b, ONE / 4, 4 * ONE)
        val half = fcossin(th / 2)
        val xm = xOfMinimum(geometry(ONE, r2, half._1, half._2).lam, g.m)
        fromGeometry(g.k, ONE, r2, th, xm + (if (g.f % 2 == 0) 1 else -1) * geo(g.a, ONE / 100, ONE / 10), nu1, q, g.u, g.m) }
      else if (g.k == 40) {                                                               // less than the minimum time
        val r2 = geo(g.b, ONE / 5, 5 * ONE)
        val half = fcossin(th / 2)
        val xm = xOfMinimum(geometry(ONE, r2, half._1, half._2).lam, g.m)
        withTime(fromGeometry(g.k, ONE, r2, th, xm, nu1, q, g.u, g.m), ONE - geo(g.a, ONE / 1000, 95 * ONE / 100)) }
      else bad(g.k)
    }
  }
  // classes 30 to 34 are classes 20 to 24 on the other path
  pure def problem(g: Pick): Prob =
    if (g.k >= 30 and g.k <= 34) {
      val q = base({ ...g, k: g.k - 10 })
      if (q.ok and iabs(q.x) < 95 * ONE / 100 and wellSeparated(q)) { ...otherPath(q), cls: g.k } else bad(g.k)
    } else base(g)
}
