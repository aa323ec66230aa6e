// Generator machine of calls to the auxiliary functions: one per step, the functions of FUNCS in turn.
module funcgen {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import funcs.* from "funcs"
  import laws.* from "laws"
  const FUNCS: List[int]
  const FIRST: int
  var n: int
  var f: int
  var args: List[int]

  pure def lin(a: int, lo: int, hi: int): int = lo + (hi - lo) * a / 999999
  pure def geo(a: int, lo: int, hi: int): int = fmul(lo, fexp(flog(hi * ONE / lo) * a / 999999))
  pure def sgn(b: int): int = if (b % 2 == 0) 1 else -1
  pure def tenth(k: int): int = ONE / 10^k
  // small perturbation, 10^-16 to 10^-1
  pure def tiny(a: int, b: int): int = sgn(b) * tenth(1 + a % 16) * (1 + b % 9)
  pure def real3(a: int, b: int, c: int): V3 = vec(lin(a, -ONE, ONE), lin(b, -ONE, ONE), lin(c, -ONE, ONE))
  pure def small3(a: int, b: int, c: int): V3 = vec((a % 7 - 3) * ONE, (b % 7 - 3) * ONE, (c % 7 - 3) * ONE)
  pure def notNull(v: V3): V3 = if (vmax(v) == 0) vec(0, ONE, 0) else v
  pure def list3(v: V3): List[int] = [v.x, v.y, v.z]
  pure def sized(v: V3, s: int): V3 = vscale(s, v)
  type Dice = { a: int, b: int, c: int, d: int, e: int, g: int, h: int }
  // two vectors: generic, small integers, in the equator, along the axes, nearly collinear, exactly collinear, nearly equatorial or polar
  pure def vectors(z: Dice): (V3, V3) = {
    val kind = z.g % 12
    val s1 = geo(z.h, tenth(6), 10^6 * ONE)
    val s2 = if (z.g % 3 == 0) s1 else fmul(s1, geo(z.e, ONE / 30, 30 * ONE))
    val u = notNull(small3(z.a, z.b, z.c))
    val w = notNull(small3(z.d, z.e, z.h))
    val x = notNull(real3(z.a, z.b, z.c))
    val y = notNull(real3(z.d, z.e, z.h))
    if (kind == 0) (sized(x, s1), sized(y, s2))
    else if (kind == 1) (u, w)
    else if (kind == 2) (sized({ ...x, z: 0 }, s1), sized({ ...y, z: 0 }, s2))
    else if (kind == 3) (vec(if (z.a % 3 == 0) ONE else 0, if (z.a % 3 == 1) sgn(z.c) * ONE else 0, if (z.a % 3 == 2) ONE else 0),
                         vec(if (z.b % 3 == 0) -ONE else 0, if (z.b % 3 == 1) sgn(z.d) * ONE else 0, if (z.b % 3 == 2) ONE else 0))
    else if (kind == 4 or kind == 5) (sized(x, s1), sized(vadd(vscale(sgn(z.c) * ONE, x), vscale(tiny(z.d, z.e), y)), s2))   // nearly collinear
    else if (kind == 6) (u, vscale(sgn(z.d) * ONE * (1 + z.e % 5), u))                                            // collinear
    else if (kind == 7) (vscale(ONE / 2^(z.d % 20), u), vscale(sgn(z.d) * ONE * 2^(z.e % 20), u))
    else if (kind == 8) { val q = notNull({ ...u, z: 0 })  (vadd(q, vec(0, 0, ONE * (z.d % 5 - 2))), vadd(vscale(sgn(z.h) * ONE, q), vec(0, 0, ONE * (z.e % 5 - 2)))) }   // polar
    else if (kind == 9) (sized({ ...x, z: fmul(x.z, tiny(z.d, z.e)) }, s1), sized({ ...y, z: fmul(y.z, tiny(z.e, z.a)) }, s2))  // nearly equatorial
    else if (kind == 10) (sized(x, s1), sized(vadd(vscale(lin(z.d, -ONE, ONE), x), vec(fmul(x.x, tiny(z.e, z.a)), 0, y.z)), s2))  // nearly polar
    else (sized(vec(x.x, 0, 0), s1), sized(vec(y.x, y.y, tiny(z.d, z.e)), s2)) }
  // eccentricities
  pure def ellipse(z: Dice): int = {
    val kind = z.g % 6
    if (kind == 0) 0 else if (kind == 1) lin(z.a, 0, ONE - ONE / 100) else if (kind == 2) ONE - tenth(1 + z.a % 12) * (1 + z.b % 9)
    else if (kind == 3) tenth(1 + z.a % 12) * (1 + z.b % 9) else lin(z.a, 0, 9 * ONE / 10) }
  pure def hyperbola(z: Dice): int = {
    val kind = z.g % 4
    if (kind == 0) ONE + geo(z.a, ONE / 100, 100 * ONE) else if (kind == 1) ONE + tenth(1 + z.a % 12) * (1 + z.b % 9) else ONE + geo(z.a, ONE / 10, 5 * ONE) }
  pure def conic(z: Dice): int = if (z.h % 5 == 0) ONE else if (z.h % 5 < 3) ellipse(z) else hyperbola(z)
  // angles up to a limit: generic, zero, small, next to the limit, right angles
  pure def someAngle(c: int, d: int, lim: int): int = {
    val kind = d % 8
    if (kind == 0) 0 else if (kind == 1) sgn(c) * tenth(1 + c % 12) * (1 + c % 9) else if (kind == 2) sgn(c) * (lim - fmul(lim, tenth(2 + c % 10) * (1 + c % 9)))
    else if (kind == 3) sgn(c) * lim / 2 else lin(c, -lim, lim) }
  pure def onOrbit(e: int, c: int, d: int): int = if (e < ONE) someAngle(c, d, PI) else if (e == ONE) fmul(someAngle(c, d, PI), ONE - tenth(6)) else fmul(someAngle(c, d, nuLimit(e)), ONE - tenth(6))
  pure def turn(c: int, d: int): int = { val a = someAngle(c, d, PI)  if (a < 0) a + TWO_PI else a }
  pure def elements(z: Dice): List[int] = {
    val e = conic(z)
    val k = geo(z.c, ONE / 100, 10^6 * ONE)
    val p = geo(z.d, ONE / 100, 10^5 * ONE)
    val inc = { val t = z.e % 9  if (t == 0) 0 else if (t == 1) PI else if (t == 2) HALF_PI else if (t == 3) tenth(1 + z.e % 11) else if (t == 4) PI - tenth(1 + z.e % 11) else lin(z.e, 0, PI) }
    List(k, p, e, inc, turn(z.a, z.d), turn(z.b, z.e), fmul(onOrbit(e, z.c, z.g), if (e >= ONE) 9 * ONE / 10 else ONE)) }
  pure def stateArgs(z: Dice): List[int] = {
    val m = elements(z)
    val s = stateOf(m[0], m[1], m[2], m[3], m[4], m[5], m[6])
    list3(s.v).foldl(list3(s.r).foldl(List(m[0]), (l, x) => l.append(x)), (l, x) => l.append(x)) }
  pure def stumpffArg(z: Dice): int = {
    val kind = z.g % 10
    if (kind == 0) 0 else if (kind == 1) tiny(z.a, z.b) else if (kind == 2) sgn(z.c) * (ONE + tiny(z.a, z.b)) else if (kind == 3) lin(z.a, -2 * ONE, 2 * ONE)
    else if (kind == 4) lin(z.a, -400 * ONE, 400 * ONE) else if (kind == 5) fsq((1 + z.b % 30) * PI + (if (z.c % 3 == 0) 0 else tiny(z.a, z.c)))
    else if (kind == 6) -geo(z.a, ONE, 480000 * ONE) else if (kind == 7) geo(z.a, ONE, 10^8 * ONE) else if (kind == 8) sgn(z.b) * geo(z.a, tenth(18), ONE) else lin(z.a, -30 * ONE, 40 * ONE) }
  // transverse eccentricities, dyadic transfer parameters, Lancaster and Blanchard's x, angles of transfer, tolerances
  pure def transverse(a: int, b: int): int =
    if (b % 7 == 0) 0 else if (b % 7 == 1) tiny(a, b) else if (b % 7 == 2) lin(a, -4 * ONE, 4 * ONE) else lin(a, -ONE, ONE)
  pure def dyadic(a: int, b: int): int =
    (if (b % 9 == 0) 0 else if (b % 9 == 1) sgn(a) * (1048576 - 1 - a % 3000) else if (b % 9 == 2) sgn(a) * (a % 2000 + 1) else lin(a, -1040000, 1040000)) * ONE / 1048576
  pure def lbx(a: int, b: int, m: int): int =
    if (m > 0) (if (b % 9 == 0) 0 else if (b % 9 == 1) lin(a, -95 * ONE / 100, -9 * ONE / 10) else lin(a, -9 * ONE / 10, 9 * ONE / 10))
    else if (b % 9 == 0) ONE else if (b % 9 == 1) 0 else if (b % 9 == 2) ONE + tiny(a, b / 9) / 2 else if (b % 9 == 3) geo(a, ONE, 50 * ONE) else if (b % 9 == 4) lin(a, -99 * ONE / 100, -ONE / 2)
    else if (b % 9 == 5) tiny(a, b / 9) / 2 else lin(a, -9 * ONE / 10, 2 * ONE)
  pure def someRevs(a: int): int = if (a % 2 == 0) 0 else 1 + (a / 2) % 3 * (a % 5)
  pure def sweep(a: int, b: int): int = lin(a, 5 * PI / 180, 175 * PI / 180) + (if (b % 2 == 0) 0 else PI)
  pure def tight(a: int): List[int] = if (a % 2 == 0) List(tenth(5), tenth(7)) else List(tenth(11), tenth(11))
  // the transverse eccentricity of a conic next to the parabola
  pure def besideParabola(b: List[int], z: Dice): int = {
    val t = triangle(three(b, 0), three(b, 3), true)
    val ef = if (t.c == 0) ONE else fundamental(t)
    sgn(z.h) * fsqrt(imax(fsq(ONE + sgn(z.d) * tenth(2 + z.c % 10) * (1 + z.h % 9)) - fsq(ef), 0)) }
  pure def lawArgs(g: int, z: Dice): List[int] = {
    val v = vectors(z)
    // now and then equal distances, on which the transverse eccentricity of the parabola is known exactly
    val same = z.e % 12 == 0
    val u1 = notNull(small3(z.a, z.b, z.c))
    val both = (if (same) list3(u1).concat(List(u1.y, u1.z, -u1.x)) else list3(v._1).concat(list3(v._2))).append(if (z.a % 2 == 0) ONE else 0)
    val et = if (same and z.d % 2 == 0) sgn(z.h) * ONE else if ((g == EAP or g == TOFT or g == COET) and z.e % 3 == 0) besideParabola(both, z) else transverse(z.h, z.d)
    val m = someRevs(z.c)
    val l = dyadic(z.a, z.b)
    val x = lbx(z.d, z.e, m)
    val mu = geo(z.h, tenth(3), 10^6 * ONE)
    val s = geo(z.b, tenth(2), 10^3 * ONE)
    val c = fmul(s, if (z.a % 5 == 0) ONE - tenth(1 + z.a % 7) else lin(z.a, ONE / 50, ONE))
    val mp = sgn(z.c) * ONE
    if (g == GEOM) both
    else if (g == EAP) both.append(et)
    else if (g == TOFT) both.append(et).append(geo(z.e, tenth(3), 10^6 * ONE))
    else if (g == COET) List(et).concat(both)
    else if (g == FUND) {
      val n1 = geo(z.a, tenth(3), 10^4 * ONE)
      val n2 = if (z.g % 9 == 0) n1 else fmul(n1, geo(z.b, ONE / 30, 30 * ONE))
      List(n1, n2, iabs(n1 - n2) + fmul(2 * imin(n1, n2), lin(z.c, tenth(6), ONE))) }
    else if (g == TLAMB) List(m * ONE, l, ONE - fsq(l), x, (z.g % 5 - 1) * ONE)
    else if (g == XLAMB) {
      val t = if (m > 0 and z.g % 4 == 0) fmul(minimumTime(l, m), lin(z.h, ONE / 5, 12 * ONE / 10)) else timeOf(l, x, m)
      List(m * ONE, l, ONE - fsq(l), 2 * t, (if (z.g % 9 == 0) 1 + z.h % 8 else 300) * ONE).concat(tight(z.h)) }
    else if (g == VLAMB) {
      val r1 = geo(z.a, tenth(2), 10^4 * ONE)
      val r2 = if (z.g % 9 == 0) r1 else fmul(r1, geo(z.b, ONE / 10, 10 * ONE))
      val th = sweep(z.g, z.h)
      val w = fcossin(th / 2)
      val q = geometry(r1, r2, w._1, w._2)
      val y = if (m == 0 and iabs(x) > 10 * ONE) ONE / 2 else x
      List(mu, r1, r2, th + m * TWO_PI, fmul(timeUnit(mu, q.s), timeOf(q.lam, y, m)), if (z.e % 2 == 0) ONE else 0, 300 * ONE).concat(tight(z.c / 2)) }
    else if (g == TPAR or g == TMIN) List(mu, s, c, mp)
    else if (g == LAGR) {
      val b = z.g % 3
      List(mu, s, c, if (b == 0) -fmul(s, geo(z.d, tenth(2), 100 * ONE)) else fmul(s / 2, ONE + (if (z.e % 9 == 0) 0 else geo(z.d, tenth(6), 100 * ONE))), mp, b * ONE) }
    else if (g == SEMI) {
      val k = lamOf(s, c, mp)
      val u = timeUnit(mu, s)
      val y = if (z.e % 7 == 0) ONE else if (z.e % 7 == 1) 0 else if (z.e % 7 == 2) geo(z.d, ONE, 8 * ONE) else lin(z.d, -95 * ONE / 100, 2 * ONE)
      List(mu, s, c, fmul(u, timeOf(k, y, 0)), fmul(u, timeOf(k, ONE, 0)), fmul(u, timeOf(k, 0, 0)), mp, 300 * ONE).concat(tight(z.g)) }
    else if (g == SERI) List(s, c, (1 + z.g % 10) * ONE, mp)
    else if (g == REVE or g == INVE) {
      val a = range(0, 8).foldl([], (t, i) => t.append(if (i == 0) sgn(z.a) * lin(z.b, ONE / 4, 2 * ONE) else if ((z.c + i * z.d) % 5 == 0) 0 else lin((z.d * (i + 1) + z.e * i * i + z.h) % 1000000, -ONE, ONE)))
      a.append((1 + z.g % 8) * ONE) }
    else if (g == LOWE) {
      val k = lamOf(s, c, mp)
      List(mu, s, c, fmul(timeUnit(mu, s), timeOf(k, ONE + geo(z.d, ONE / 10^5, 5 * ONE), 0)), mp, if (z.e % 3 == 0) -fmul(s, geo(z.g, ONE / 100, ONE)) else -(s / 2)) }
    else if (g == UPPE) {
      val k = lamOf(s, c, mp)
      val b = 1 + z.g % 2
      val y = ONE - geo(z.d, ONE / 10^5, 95 * ONE / 100)      // down to axes of 50 000 semi-perimeters
      List(mu, s, c, fmul(timeUnit(mu, s), timeOf(k, if (b == 1) y else -y, 0)), mp, b * ONE, if (z.e % 3 == 0) fmul(s, geo(z.h, 6 * ONE / 10, 2 * ONE)) else s) }
    else if (g == RECO) {
      val r1 = geo(z.a, tenth(2), 10^4 * ONE)
      val r2 = if (z.g % 9 == 0) r1 else fmul(r1, geo(z.b, ONE / 10, 10 * ONE))
      val th = sweep(z.g, z.h)
      val w = fcossin(th / 2)
      val q = geometry(r1, r2, w._1, w._2)
      val y = if (z.e % 3 == 0) ONE else lin(z.d, -9 * ONE / 10, 3 * ONE)
      val f = fcossin(lin(z.c, 0, TWO_PI))
      val n = fcossin(lin(z.c, 0, TWO_PI) + th)
      val o = { a: z.a % 9 - 4, b: z.b % 9 - 4, c: z.d % 9 - 4, d: 1 + z.e % 5 }
      List(y, yOf(q.lam, y), mu).concat(list3(rotate(o, fmul(r1, f._1), fmul(r1, f._2)))).concat(list3(rotate(o, fmul(r2, n._1), fmul(r2, n._2)))).concat(List(q.s, q.c, th)) }
    else List(if (z.e % 7 == 0) 0 else if (z.e % 7 == 1) tiny(z.d, z.e / 7) / 2 else lin(z.d, -9 * ONE / 10, 97 * ONE / 100)) }
  pure def argsOf(g: int, z: Dice): List[int] = if (g >= GEOM) lawArgs(g, z) else {
    val p = vectors(z)
    val both = list3(p._1).concat(list3(p._2))
    if (g == NORM) list3(p._1)
    else if (g == DOT or g == CROSS or g == ANGLES or g == NORMALS) both
    else if (g == ANGLE or g == NORMAL or g == INCRAAN) both.append(if (z.a % 2 == 0) ONE else 0)
    else if (g == NU_E or g == NU_E_NU) [someAngle(z.c, z.d, PI), ellipse(z)]
    else if (g == E_NU or g == E_NU_E) [someAngle(z.c, z.d, PI), ellipse(z)]
    else if (g == NU_B or g == NU_B_NU) [someAngle(z.c, z.d, PI)]
    else if (g == B_NU or g == B_NU_B) [if (z.d % 5 == 0) 0 else sgn(z.d) * geo(z.c, tenth(9), 10^(if (g == B_NU) 9 else 4) * ONE)]
    else if (g == NU_H or g == NU_H_NU) { val e = hyperbola(z)  [onOrbit(e, z.c, z.d), e] }
    else if (g == H_NU or g == H_NU_H) [someAngle(z.c, z.d, 12 * ONE), hyperbola(z)]
    else if (g == KEPLER_E) [if (z.d % 4 == 0) lin(z.c, -100 * ONE, 100 * ONE) else someAngle(z.c, z.d, PI), ellipse(z)]
    else if (g == KEPLER_B) [if (z.d % 5 == 0) 0 else sgn(z.d) * geo(z.c, tenth(9), 10^6 * ONE)]
    else if (g == KEPLER_H) [someAngle(z.c, z.d, 30 * ONE), hyperbola(z)]
    else if (g == KEPLER) { val e = if (z.h % 13 == 0) -geo(z.a, tenth(12), 10 * ONE) else conic(z)  [onOrbit(iabs(e), z.c, z.d), e] }
    else if (g == RV_PQW) { val m = elements(z)  [m[0], m[1], m[2], m[6]] }
    else if (g == COE_RV or g == COE_RV_COE_RV) elements(z)
    else if (g == RV_COE or g == RV_COE_RV) stateArgs(z)
    else if (g == ROT) [lin(z.a, -4 * PI, 4 * PI), (if (z.g % 4 < 3) z.g % 3 else z.c % 12 - 6) * ONE]
    else if (g == ROT313) [someAngle(z.a, z.b, PI), turn(z.c, z.d), turn(z.e, z.g)]
    else if (g == C2 or g == C3) [stumpffArg(z)]
    else [if (z.a % 3 == 0) 0 else if (z.a % 3 == 1) PI_DOUBLE else someAngle(z.c, z.d, TWO_PI)] }

  action init = all { n' = FIRST, f' = 0, args' = [] }
  action step = {
    nondet a = 0.to(999999).oneOf()
    nondet b = 0.to(999999).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet d = 0.to(999999).oneOf()
    nondet e = 0.to(999999).oneOf()
    nondet g = 0.to(999999).oneOf()
    nondet h = 0.to(999999).oneOf()
    val k = FUNCS[n % FUNCS.length()]
    all { n' = n + 1, f' = k, args' = argsOf(k, { a: a, b: b, c: c, d: d, e: e, g: g, h: h }) }
  }
}
