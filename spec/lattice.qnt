// Requests made of small integers, whose solutions nobody prescribes: they are there to compare outcomes with each other.
module lattice {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"
  // a..f: components in -7..7; k: scale and gravitational parameter; t: 0..9999 time of flight; m: revolutions; w: flags
  type LatPick = { a: int, b: int, c: int, d: int, e: int, f: int, k: int, t: int, m: int, w: int }
  pure val LAT0: LatPick = { a: 1, b: 0, c: 0, d: 0, e: 1, f: 0, k: 0, t: 0, m: 0, w: 0 }
  // the numbers are exact: r in units of `scale` (an integer), mu = mun * 2^mue, tof = tofn * 2^tofe
  type Lat = { r1: List[int], r2: List[int], mun: int, mue: int, tofn: int, tofe: int, revs: int, pro: bool, low: bool,
               ok: bool, par: bool, men: bool, near: bool, ordinary: bool, easy: bool, demanding: bool }
  pure val SCALES = [1, 1, 1, 149597870700, 1000, 1777, 123456]
  pure val MUS: List[{ n: int, e: int }] = [{ n: 1, e: 0 }, { n: 1, e: -1 }, { n: 3, e: 0 }, { n: 132712440018, e: 30 }, { n: 3986005, e: -3 }, { n: 398600, e: 0 }, { n: 3, e: 40 }]
  pure def at3(v: List[int], k: int): V3 = vec(k * v[0] * ONE, k * v[1] * ONE, k * v[2] * ONE)
  pure def lat(g: LatPick): Lat = {
    val u1 = [g.a, g.b, g.c]
    val u2 = [g.d, g.e, g.f]
    val sc = SCALES[g.k % 7]
    val mu = MUS[g.k % 7]
    val none = { r1: [1, 0, 0], r2: [0, 1, 0], mun: 1, mue: 0, tofn: 1, tofe: 0, revs: 0, pro: true, low: true,
                 ok: false, par: false, men: false, near: false, ordinary: false, easy: false, demanding: false }
    val w1 = at3(u1, 1)
    val w2 = at3(u2, 1)
    val h = vcross(w1, w2)
    // (the plane has to say which motion is prograde)
    if (iabs(h.z) * 30 < vnorm(h) or vnorm(h) == 0) none else {
      val pro = g.w % 2 == 0
      val n1 = vnorm(w1)
      val n2 = vnorm(w2)
      val dot = vdot(w1, w2) * ONE / fmul(n1, n2)
      val ch0 = fsqrt((ONE + dot) / 2)
      val ch = if ((h.z > 0) == pro) ch0 else -ch0
      val sh = fsqrt((ONE - dot) / 2)
      val gm = geometry(n1, n2, ch, sh)
      val tp = timeOf(gm.lam, ONE, 0)
      val lo = if (g.m == 0) timeOf(gm.lam, 2 * ONE, 0) else minimumTime(gm.lam, g.m)
      val hi = timeOf(gm.lam, -(85 * ONE / 100), g.m)
      val want = geo(g.t, fmul(lo, if (g.m == 0) 8 * ONE / 10 else 101 * ONE / 100), hi)
      // the time of flight, in units of (scale^3 / mu)^(1/2), kept to about 14 binary digits
      val muv = if (mu.e >= 0) mu.n * 2^mu.e * ONE else mu.n * ONE / 2^(-mu.e)
      val unit = fsqrt(fmul(gm.s * sc, fmul(gm.s * sc, gm.s * sc)) * ONE / (2 * muv))
      val tofe = [-12, -12, -12, 0, -3, -2, -8][g.k % 7]
      val tofn = imax(1, fmul(want, unit) * 2^(-tofe) / ONE)
      val tt = tofn * ONE / 2^(-tofe) * ONE / unit
      { r1: [u1[0] * sc, u1[1] * sc, u1[2] * sc], r2: [u2[0] * sc, u2[1] * sc, u2[2] * sc], mun: mu.n, mue: mu.e, tofn: tofn, tofe: tofe,
        revs: g.m, pro: pro, low: g.w / 2 % 2 == 0, ok: iabs(dot) < 998 * ONE / 1000,
        par: iabs(tt - tp) < tp / 6, men: iabs(tt - timeOf(gm.lam, 0, 0)) < tt / 3, near: g.m > 0 and tt < fmul(lo, 108 * ONE / 100),
        ordinary: g.m == 0 and iabs(tt - tp) > tp / 100, easy: tt < hi and tt > lo, demanding: gm.lam > 9 * ONE / 10 or tt < lo } }
  }
}
