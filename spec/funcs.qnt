// The auxiliary functions of the library (linear algebra, angles, anomalies, orbital elements, Stumpff functions): what
// each of them computes, as a function of the very numbers it was given, and how far rounding may take it from that.
module funcs {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import tape.* from "tape"

  pure val EPS = ONE / 2^52
  // functions of the library, by number
  pure val DOT = 1
  pure val CROSS = 2
  pure val NORM = 3
  pure val ANGLE = 10        // transfer angle for one sense of motion
  pure val NORMAL = 11       // normal of the orbit
  pure val INCRAAN = 12      // inclination and node
  pure val ANGLES = 13       // transfer angles for both senses of motion
  pure val NORMALS = 14      // normals for both senses of motion
  pure val NU_E = 20
  pure val E_NU = 21
  pure val NU_B = 22
  pure val B_NU = 23
  pure val NU_H = 24
  pure val H_NU = 25
  pure val KEPLER_E = 26
  pure val KEPLER_B = 27
  pure val KEPLER_H = 28
  pure val KEPLER = 29       // mean anomaly from the true one
  pure val NU_E_NU = 30      // there and back
  pure val NU_B_NU = 31
  pure val NU_H_NU = 32
  pure val E_NU_E = 33
  pure val B_NU_B = 34
  pure val H_NU_H = 35
  pure val RV_PQW = 40
  pure val COE_RV = 41
  pure val RV_COE = 42
  pure val ROT = 43
  pure val ROT313 = 44
  pure val COE_RV_COE_RV = 45
  pure val RV_COE_RV = 46
  pure val C2 = 50
  pure val C3 = 51
  pure val NO_ZERO = 60      // assertions
  pure val NO_PI = 61

  // ---- tools ------------------------------------------------------------------------------------------
  pure def off(a: int, b: int): int = iabs(a - b)
  pure def eps(n: int, x: int): int = n * fmul(EPS, iabs(x)) + 1
  pure def three(l: List[int], i: int): V3 = vec(l[i], l[i + 1], l[i + 2])
  pure def vsum(a: V3): int = iabs(a.x) + iabs(a.y) + iabs(a.z)
  // distance of two angles
  pure def apart(a: int, b: int): int = { val d = flmod(a - b, TWO_PI)  imin(d, TWO_PI - d) }
  pure def first(l: List[str]): str = l.foldl("", (s, c) => if (s == "") c else s)
  pure def must(b: bool, clause: str): str = if (b) "" else clause
  pure val PI_DOUBLE = 884279719003555 * ONE / 281474976710656
  pure val TWO_PI_DOUBLE = 2 * PI_DOUBLE

  // ---- C12 --------------------------------------------------------------------------------------------
  type Pair = { n: int, c: int, d: int, h: V3, ambiguous: bool }
  // product of the lengths, length of the cross product, dot product, cross product; is the sign of its polar component blurred?
  pure def pair(a: V3, b: V3): Pair = {
    val h = vcross(a, b)
    { n: fmul(vnorm(a), vnorm(b)), c: vnorm(h), d: vdot(a, b), h: h,
      ambiguous: iabs(h.z) <= eps(4, fmul(iabs(a.x), iabs(b.y)) + fmul(iabs(a.y), iabs(b.x))) } }
  pure def collinear(p: Pair): bool = p.c * 10^16 <= p.n            // less than a rounding error apart
  pure def nearlyCollinear(p: Pair): bool = p.c * 10^15 <= p.n * 2
  pure def angleOk(p: Pair, pro: bool, t: int): str = {
    val th = fatan2(p.c, p.d)
    val way = if (p.h.z >= 0) pro else not(pro)
    val tol = eps(8, ONE) + eps(4, t)
    val good = off(t, if (way) th else TWO_PI - th) <= tol or (p.ambiguous and off(t, if (way) TWO_PI - th else th) <= tol)
    if (collinear(p)) must(t == (if (p.d > 0) 0 else PI_DOUBLE), "the angle of collinear vectors is not exactly 0 or 180 degrees")
    else if (nearlyCollinear(p)) must(apart(t, if (p.d > 0) 0 else PI) <= 16 * EPS, "wrong transfer angle")
    else first([must(t > 0 and t < TWO_PI and t != PI_DOUBLE, "the transfer angle is out of its range"),
                must(good, if (off(t, if (way) TWO_PI - th else th) <= tol) "transfer angle of the other sense of motion" else "wrong transfer angle")]) }
  // relative error of a normal computed from two vectors
  pure def blur(p: Pair): int = 4 * EPS + 8 * fmul(EPS, p.n) * ONE / p.c
  pure def defined(p: Pair): bool = p.c > 0 and blur(p) < ONE / 100
  pure def unitNormal(p: Pair, pro: bool): V3 = {
    val u = vec(p.h.x * ONE / p.c, p.h.y * ONE / p.c, p.h.z * ONE / p.c)
    if ((u.z >= 0) == pro) u else vneg(u) }
  pure def normalOk(p: Pair, pro: bool, u: V3): str = {
    val e = unitNormal(p, pro)
    first([must(off(vdot(u, u), ONE) <= 16 * EPS, "the normal is not a unit vector"),
           must(vmax(vsub(u, e)) <= blur(p) or vmax(vadd(u, e)) <= blur(p), "the normal is not perpendicular to both vectors"),
           must(vmax(vsub(u, e)) <= blur(p) or p.ambiguous, "normal of the other sense of motion")]) }
  pure def incRaanOk(p: Pair, pro: bool, inc: int, raan: int): str = {
    val e = unitNormal(p, pro)
    val s = fsqrt(fsq(e.x) + fsq(e.y))
    val flat = p.h.x == 0 and p.h.y == 0
    val node = fatan2(e.x, -e.y)
    first([must(inc >= 0 and inc <= PI_DOUBLE, "inclination out of its range"),
           must(raan >= 0 and raan <= TWO_PI_DOUBLE, "node out of its range"),
           must(not(flat) or (inc == (if (pro) 0 else PI_DOUBLE) and raan == 0), "inclination or node of an equatorial plane"),
           must(off(fcos(inc), e.z) <= blur(p) + 4 * EPS or (p.ambiguous and off(fcos(inc), -e.z) <= blur(p) + 4 * EPS), "wrong inclination"),
           must(flat or 4 * blur(p) >= s or apart(raan, node) <= 2 * blur(p) * ONE / s + 16 * EPS or
                (p.ambiguous and apart(raan + PI, node) <= 2 * blur(p) * ONE / s + 16 * EPS), "wrong node")]) }

  // ---- C13 --------------------------------------------------------------------------------------------
  pure def eccOf(e: int, nu: int): int = { val c = fcossin(nu / 2)  2 * fatan2(fmul(fsqrt(ONE - e), c._2), fmul(fsqrt(ONE + e), c._1)) }
  pure def nuOf(e: int, ea: int): int = { val c = fcossin(ea / 2)  2 * fatan2(fmul(fsqrt(ONE + e), c._2), fmul(fsqrt(ONE - e), c._1)) }
  pure def tanh(x: int): int = fsinh(x) * ONE / fcosh(x)
  pure def nuOfH(e: int, h: int): int = 2 * fatan2(fmul(fsqrt(e + ONE), fsinh(h / 2)), fmul(fsqrt(e - ONE), fcosh(h / 2)))
  // tangent of half the hyperbolic anomaly, and how much a relative error of it is amplified
  pure def tOf(e: int, nu: int): int = { val c = fcossin(nu / 2)  fmul(fsqrt((e - ONE) * ONE / (e + ONE)), c._2 * ONE / c._1) }
  pure def ampH(t: int): int = iabs(t) * ONE / (ONE - fsq(t))
  pure def meanE(e: int, ea: int): int = ea - fmul(e, fsin(ea))
  pure def meanH(e: int, h: int): int = fmul(e, fsinh(h)) - h
  pure def meanTol(e: int, nu: int): int =
    if (e < ONE) { val ea = eccOf(e, nu)  eps(24, iabs(ea) + fmul(e, iabs(fsin(ea)))) }
    else if (e == ONE) { val t = iabs(fsin(nu / 2) * ONE / fcos(nu / 2))  eps(24, t + fmul(t, fsq(t))) }
    else {
      val t = tOf(e, nu)
      val h = 2 * fatanh(t)
      eps(24, fmul(e, fsinh(iabs(h))) + iabs(h) + fmul(iabs(fmul(e, fcosh(h)) - ONE), 2 * ampH(t))) }
  // mean anomaly from the flow of the two-body problem: time since periapsis on the conic with p = 1
  pure def meanOf(e: int, nu: int): int =
    if (e == ONE) 2 * sincePeriapsis(ONE, e, nu)
    else {
      val k = iabs(ONE - fsq(e))
      fmul(fmul(k, fsqrt(k)), sincePeriapsis(ONE, e, nu)) }
  // true anomalies a hyperbola has
  pure def onHyperbola(e: int, nu: int): bool = iabs(nu) < PI and iabs(tOf(e, nu)) < ONE - ONE / 10^12

  pure def anomalies(f: int, x: List[int], y: int): str = {
    val a = x[0]
    val e = if (x.length() > 1) x[1] else 0
    if (f == NU_E) first([must(off(y, eccOf(e, a)) <= eps(16, eccOf(e, a)), "wrong eccentric anomaly")])
    else if (f == E_NU) must(off(y, nuOf(e, a)) <= eps(16, nuOf(e, a)), "wrong true anomaly")
    else if (f == NU_B) { val c = fcossin(a / 2)  must(off(y, c._2 * ONE / c._1) <= eps(8, c._2 * ONE / c._1), "wrong parabolic anomaly") }
    else if (f == B_NU) must(off(y, 2 * fatan2(a, ONE)) <= eps(8, y), "wrong true anomaly")
    else if (f == NU_H) { val t = tOf(e, a)  must(off(y, 2 * fatanh(t)) <= eps(16, iabs(y) + 2 * ampH(t)), "wrong hyperbolic anomaly") }
    else if (f == H_NU) must(off(y, nuOfH(e, a)) <= eps(16, nuOfH(e, a)), "wrong true anomaly")
    else if (f == KEPLER_E) must(off(y, meanE(e, a)) <= eps(6, iabs(a) + fmul(e, iabs(fsin(a)))), "wrong mean anomaly")
    else if (f == KEPLER_B) must(off(y, a + fmul(a, fsq(a)) / 3) <= eps(8, y), "wrong mean anomaly")
    else if (f == KEPLER_H) must(off(y, meanH(e, a)) <= eps(8 + iabs(a) / ONE, fmul(e, fsinh(iabs(a))) + iabs(a)), "wrong mean anomaly")
    else if (f == KEPLER) must(off(y, meanOf(e, a)) <= meanTol(e, a), "wrong mean anomaly")
    else if (f == NU_E_NU) must(off(y, a) <= eps(40, a), "anomalies do not convert back")
    else if (f == E_NU_E) must(off(y, a) <= eps(40, a) + eps(16, fsqrt(ONE - fsq(e)) * ONE / (ONE + fmul(e, fcos(nuOf(e, a))))), "anomalies do not convert back")
    else if (f == NU_B_NU or f == B_NU_B) must(off(y, a) <= eps(24, a) + (if (f == B_NU_B) eps(24, fmul(a, ONE + fsq(a))) else 0), "anomalies do not convert back")
    else if (f == NU_H_NU) must(off(y, a) <= eps(40, a), "anomalies do not convert back")
    else {
      val t = tanh(a / 2)
      must(off(y, a) <= eps(40, iabs(a) + 2 * ampH(t)) + eps(16, fsqrt(fsq(e) - ONE) * ONE / (ONE + fmul(e, fcos(nuOfH(e, a))))), "anomalies do not convert back") }
  }

  // ---- C14 --------------------------------------------------------------------------------------------
  // matrix as nine numbers, row by row
  pure def rot(angle: int, axis: int): List[int] = {
    val c = fcos(angle)
    val s = fsin(angle)
    if (axis == 0) [ONE, 0, 0, 0, c, -s, 0, s, c] else if (axis == 1) [c, 0, s, 0, ONE, 0, -s, 0, c] else [c, -s, 0, s, c, 0, 0, 0, ONE] }
  pure def row(m: List[int], i: int): V3 = vec(m[3 * i], m[3 * i + 1], m[3 * i + 2])
  pure def col(m: List[int], i: int): V3 = vec(m[i], m[i + 3], m[i + 6])
  pure def mmul(a: List[int], b: List[int]): List[int] = range(0, 9).foldl([], (l, k) => l.append(vdot(row(a, k / 3), col(b, k % 3))))
  pure def rot313(inc: int, raan: int, argp: int): List[int] = mmul(mmul(rot(raan, 2), rot(inc, 0)), rot(argp, 2))
  pure def apply(m: List[int], v: V3): V3 = vec(vdot(row(m, 0), v), vdot(row(m, 1), v), vdot(row(m, 2), v))
  type State = { r: V3, v: V3, rt: int, vt: int }      // with how far rounding may take a state
  pure def perifocal(k: int, p: int, e: int, nu: int): State = {
    val c = fcossin(nu)
    val den = ONE + fmul(e, c._1)
    val r = p * ONE / den
    val s = fsqrt(k * ONE / p)
    { r: vec(fmul(r, c._1), fmul(r, c._2), 0), v: vec(-fmul(s, c._2), fmul(s, e + c._1), 0),
      rt: eps(6, r) + eps(6, fmul(r, fmul(e, iabs(c._1)) * ONE / den)) + eps(6, fmul(r, ONE * ONE / den)), vt: eps(8, fmul(s, ONE + e)) } }
  pure def stateOf(k: int, p: int, e: int, inc: int, raan: int, argp: int, nu: int): State = {
    val q = perifocal(k, p, e, nu)
    val m = rot313(inc, raan, argp)
    { r: apply(m, q.r), v: apply(m, q.v), rt: q.rt + eps(16, vnorm(q.r)), vt: q.vt + eps(16, vnorm(q.v)) } }
  pure def defined2(e: int, nu: int): bool = ONE + fmul(e, fcos(nu)) > ONE / 10^9
  pure def same(a: State, r: V3, v: V3): str =
    first([must(vmax(vsub(a.r, r)) <= a.rt, "wrong position"), must(vmax(vsub(a.v, v)) <= a.vt, "wrong velocity")])
  // the elements of a state: what is needed to tell how good computed elements can be
  type Facts = { p: int, e: int, h: V3, hn: int, s: int, tol: int, etol: int, ptol: int }
  pure def facts(k: int, r: V3, v: V3): Facts = {
    val h = vcross(r, v)
    val hn = vnorm(h)
    val n = vnorm(r)
    val vv = vdot(v, v)
    val rv = vdot(r, v)
    val p = fsq(hn) * ONE / k
    val e = vnorm(vsub(vscale((vv - k * ONE / n) * ONE / k, r), vscale(rv * ONE / k, v)))
    val s = vnorm(vec(h.x, h.y, 0)) * ONE / hn                      // sine of the inclination
    val amp = fmul(n, vnorm(v)) * ONE / hn                          // what the cross product loses
    val en = fmul(vv, n) * ONE / k + ONE                            // size of the terms of the eccentricity vector
    val big = fsq(amp) + en + n * ONE / p
    // arc cosine of the inclination; orbits within 1e-8 of equatorial or circular are taken for those
    val tilt = imin(if (s > 0) 16 * fmul(EPS, amp) * ONE / s else ONE, fsqrt(32 * fmul(EPS, amp))) + (if (s < ONE * 2 / 10^8) 4 * ONE / 10^8 else 0)
    val round = if (e < ONE * 2 / 10^8) 5 * ONE / 10^8 else 0
    { p: p, e: e, h: h, hn: hn, s: s, tol: 64 * fmul(EPS, big) + fmul(tilt + round, ONE + fsq(amp)), etol: 16 * fmul(EPS, en) + 8 * EPS, ptol: 16 * fmul(EPS, fmul(amp, p)) } }
  pure def close(a: V3, b: V3, rel: int, by: V3): bool = vnorm(vsub(a, b)) <= fmul(rel, vnorm(by))
  pure def reproduces(k: int, r: V3, v: V3, f: Facts, r2: V3, v2: V3): str =
    first([must(close(r2, r, f.tol, r), "elements do not reproduce the position"), must(close(v2, v, f.tol, v), "elements do not reproduce the velocity")])
  pure def elementsOk(k: int, r: V3, v: V3, y: List[int]): str = {
    val f = facts(k, r, v)
    val s = stateOf(k, y[0], y[1], y[2], y[3], y[4], y[5])
    first([must(off(y[0], f.p) <= f.ptol, "wrong semi-latus rectum"),
           must(off(y[1], f.e) <= f.etol, "wrong eccentricity"),
           must(y[2] >= 0 and y[2] <= PI_DOUBLE, "inclination out of its range"),
           must(y[3] >= 0 and y[3] <= TWO_PI_DOUBLE, "node out of its range"),
           must(y[4] >= 0 and y[4] <= TWO_PI_DOUBLE, "argument of periapsis out of its range"),
           must(y[5] >= -PI_DOUBLE and y[5] <= PI_DOUBLE, "true anomaly out of its range"),
           reproduces(k, r, v, f, s.r, s.v)]) }
  pure def nearMat(a: List[int], b: List[int], n: int): bool = 0.to(8).forall(i => off(a[i], b[i]) <= n * EPS)
  pure def proper(m: List[int], n: int): bool = nearMat(mmul(m, [m[0], m[3], m[6], m[1], m[4], m[7], m[2], m[5], m[8]]), [ONE, 0, 0, 0, ONE, 0, 0, 0, ONE], n)
    and vmax(vsub(vcross(row(m, 0), row(m, 1)), row(m, 2))) <= n * EPS

  // ---- C15 --------------------------------------------------------------------------------------------
  pure def stumpff2(z: int): int =
    if (iabs(z) < ONE / 10^15) ONE / 2 - z / 24
    else if (z > 0) 2 * fsq(fsin(fsqrt(z) / 2)) * ONE / z
    else 2 * fsq(fsinh(fsqrt(-z) / 2)) * ONE / (-z)
  pure def stumpff3(z: int): int =
    if (iabs(z) < ONE / 10^15) ONE / 6 - z / 120
    else if (z > 0) { val s = fsqrt(z)  (s - fsin(s)) * ONE / fmul(z, s) }
    else { val s = fsqrt(-z)  (fsinh(s) - s) * ONE / fmul(-z, s) }
  pure def stumpffTol(z: int, y: int): int =
    if (z > ONE) (4 * EPS + 4 * fmul(EPS, fsqrt(z))) * ONE / z + eps(4, y)
    else if (z < -ONE) eps(12 + 2 * fsqrt(-z) / ONE, y)
    else eps(6, y)

  // ---- the verdict -------------------------------------------------------------------------------------
  // inputs, outcome of the call and outputs
  type Call = { f: int, status: int, x: List[int], y: List[int], fin: bool }
  pure def mustRefuse(c: Call): bool =
    (c.f == KEPLER and c.x[1] < 0) or (c.f == ROT and (c.x[1] < 0 or c.x[1] > 2 * ONE)) or
    (c.f == NO_ZERO and c.x[0] == 0) or (c.f == NO_PI and c.x[0] == PI_DOUBLE)
  pure def results(f: int): int =
    if (f == CROSS or f == NORMAL) 3 else if (f == INCRAAN or f == ANGLES) 2 else if (f == NORMALS or f == RV_PQW or f == COE_RV or f == RV_COE or f == COE_RV_COE_RV or f == RV_COE_RV) 6
    else if (f == ROT or f == ROT313) 9 else 1
  pure def geometry2(f: int, x: List[int], y: List[int]): str = {
    val a = three(x, 0)
    val b = three(x, 3)
    val p = pair(a, b)
    val pro = if (x.length() > 6) x[6] != 0 else true
    if (f == DOT) must(off(y[0], p.d) <= eps(8, fmul(iabs(a.x), iabs(b.x)) + fmul(iabs(a.y), iabs(b.y)) + fmul(iabs(a.z), iabs(b.z))), "wrong dot product")
    else if (f == CROSS)
      must(off(y[0], p.h.x) <= eps(4, fmul(iabs(a.y), iabs(b.z)) + fmul(iabs(a.z), iabs(b.y))) and
           off(y[1], p.h.y) <= eps(4, fmul(iabs(a.z), iabs(b.x)) + fmul(iabs(a.x), iabs(b.z))) and
           off(y[2], p.h.z) <= eps(4, fmul(iabs(a.x), iabs(b.y)) + fmul(iabs(a.y), iabs(b.x))), "wrong cross product")
    else if (f == ANGLE) angleOk(p, pro, y[0])
    else if (f == ANGLES)
      first([angleOk(p, true, y[0]), angleOk(p, false, y[1]),
             must(if (collinear(p)) y[0] == y[1] else nearlyCollinear(p) or off(y[0] + y[1], TWO_PI_DOUBLE) <= 2 * eps(1, TWO_PI), "the angles of both senses do not add to 360 degrees")])
    else if (f == NORMAL) normalOk(p, pro, three(y, 0))
    else if (f == NORMALS)
      first([normalOk(p, true, three(y, 0)), normalOk(p, false, three(y, 3)),
             must(three(y, 0) == vneg(three(y, 3)), "the normals of both senses are not opposite")])
    else incRaanOk(p, pro, y[0], y[1]) }
  // the matrix with one of the sines about the second axis negated, which is no rotation
  pure def flippedY(a: int, y: List[int]): bool = {
    val m = rot(a, 1)
    iabs(m[2]) > 8 * EPS and nearMat(y, [m[0], m[1], m[2], m[3], m[4], m[5], -m[6], m[7], m[8]], 2) }
  pure def elements2(f: int, x: List[int], y: List[int]): str =
    if (f == ROT) first([must(not(x[1] == ONE and flippedY(x[0], y)), "the rotation about the second axis has the wrong sign"), must(nearMat(y, rot(x[0], x[1] / ONE), 2), "not the rotation about that axis"), must(proper(y, 8), "not a rotation")])
    else if (f == ROT313) first([must(nearMat(y, rot313(x[0], x[1], x[2]), 8), "not the rotation of these elements"), must(proper(y, 16), "not a rotation")])
    else if (f == RV_PQW) (if (not(defined2(x[2], x[3]))) "" else same(perifocal(x[0], x[1], x[2], x[3]), three(y, 0), three(y, 3)))
    else if (f == COE_RV) (if (not(defined2(x[2], x[6]))) "" else same(stateOf(x[0], x[1], x[2], x[3], x[4], x[5], x[6]), three(y, 0), three(y, 3)))
    else if (f == RV_COE) elementsOk(x[0], three(x, 1), three(x, 4), y)
    else if (f == RV_COE_RV) reproduces(x[0], three(x, 1), three(x, 4), facts(x[0], three(x, 1), three(x, 4)), three(y, 0), three(y, 3))
    else if (not(defined2(x[2], x[6]))) ""
    else {
      val s = stateOf(x[0], x[1], x[2], x[3], x[4], x[5], x[6])
      val f2 = facts(x[0], s.r, s.v)
      reproduces(x[0], s.r, s.v, { ...f2, tol: f2.tol + fmul(2 * ONE + f2.tol, imax(s.rt * ONE / vnorm(s.r), s.vt * ONE / vnorm(s.v))) }, three(y, 0), three(y, 3)) }
  // the plane of collinear vectors is not defined
  pure def undefinedCall(c: Call): bool =
    (c.f == NORMAL or c.f == NORMALS or c.f == INCRAAN) and not(defined(pair(three(c.x, 0), three(c.x, 3))))
  pure def judgeCall(c: Call): str =
    if (c.status == 4) "did not end"
    else if (mustRefuse(c)) must(c.status == 1, "accepted arguments to refuse")
    else if (c.status == 5) "returned something of another shape"
    else if (undefinedCall(c)) ""
    else if (c.status != 0) "raised an exception"
    else if (c.y.length() != results(c.f)) "returned something of another shape"
    else if (not(c.fin)) "result is not finite"
    else if (c.f == NORM) must(off(c.y[0], vnorm(three(c.x, 0))) <= eps(6, c.y[0]), "wrong norm")
    else if (c.f < NU_E) geometry2(c.f, c.x, c.y)
    else if (c.f < RV_PQW) anomalies(c.f, c.x, c.y[0])
    else if (c.f < C2) elements2(c.f, c.x, c.y)
    else if (c.f == C2) must(off(c.y[0], stumpff2(c.x[0])) <= stumpffTol(c.x[0], c.y[0]), "wrong Stumpff function")
    else if (c.f == C3) must(off(c.y[0], stumpff3(c.x[0])) <= stumpffTol(c.x[0], c.y[0]), "wrong Stumpff function")
    else must(c.y[0] == ONE, "an assertion that holds is not true")
}
