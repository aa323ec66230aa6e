// What the solvers are made of: the conics through two positions (Avanzini), the time laws of Lambert's problem (Gooding, Thorne,
// Izzo's series) and what inverts them.  Each function is judged on the very numbers it was given.
module laws {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import funcs.* from "funcs"

  pure val GEOM = 70         // distances, chord and angles of a transfer                      r1, r2, prograde
  pure val FUND = 71         // fundamental ellipse                                            |r1|, |r2|, |chord|
  pure val EAP = 72          // eccentricity, semi-major axis and parameter                    r1, r2, prograde, transverse eccentricity
  pure val TOFT = 73         // time of flight                                                 r1, r2, prograde, transverse eccentricity, mu
  pure val COET = 74         // orbital elements                                               transverse eccentricity, r1, r2, prograde
  pure val TLAMB = 75        // Gooding's time and derivatives                                 m, q, 1 - q^2, x, n
  pure val XLAMB = 76        // Gooding's inverse                                              m, q, 1 - q^2, time, maxiter, atol, rtol
  pure val VLAMB = 77        // Gooding's velocities                                           mu, |r1|, |r2|, angle, tof, low path, maxiter, atol, rtol
  pure val TPAR = 80         // parabolic time                                                 mu, s, c, sign
  pure val TMIN = 81         // minimum-energy time                                            mu, s, c, sign
  pure val LAGR = 82         // Lagrange's time                                                mu, s, c, a, sign, branch (H, A, B)
  pure val SEMI = 83         // its inverse, as x                                              mu, s, c, tof, tp, tmin, sign, maxiter, atol, rtol
  pure val RECO = 84         // velocities from x                                              x, y, mu, r1, r2, s, c, angle
  pure val HYPG = 85         // hypergeometric function F(3, 1; 5/2; z)                        z
  pure val SERI = 86         // Thorne's series of the time of flight                          s, c, order, sign
  pure val REVE = 87         // powers of the reverted series                                  8 coefficients, order
  pure val INVE = 88         // the reverted and inverted series                               8 coefficients, order
  pure val LOWE = 89         // bound below a hyperbolic semi-major axis                       mu, s, c, tof, sign, start
  pure val UPPE = 90         // bound above an elliptic semi-major axis                        mu, s, c, tof, sign, branch, start

  // ---- conics through two positions ---------------------------------------------------------------------
  // in the plane of the motion, with the first axis along r1: angle swept, chord and its direction
  type Tri = { n1: int, n2: int, c: int, th: int, wc: int, blur: int }
  pure def triangle(a: V3, b: V3, pro: bool): Tri = {
    val p = pair(a, b)
    val th = fatan2(p.c, p.d)
    val ch = vsub(b, a)
    val cn = vnorm(ch)
    val w = fatan2(vnorm(vcross(a, ch)), vdot(a, ch))
    val short = if (p.h.z >= 0) pro else not(pro)
    val n1 = vnorm(a)
    val n2 = vnorm(b)
    { n1: n1, n2: n2, c: cn, th: if (short) th else TWO_PI - th, wc: if (short) w else TWO_PI - w, blur: 16 * fmul(EPS, ONE + (n1 + n2) * ONE / imax(cn, 1)) } }
  pure def turned(t: Tri): Tri = { ...t, th: TWO_PI - t.th, wc: TWO_PI - t.wc }       // the other sense of motion
  pure def fundamental(t: Tri): int = (t.n1 - t.n2) * ONE / t.c
  type Conic = { e: int, p: int, nu1: int, nu2: int, k: int }                       // k: 1 - e^2
  pure def conicAt(t: Tri, et: int): Conic = {
    val ef = fundamental(t)
    val w = fcossin(t.wc)
    val ex = fmul(ef, w._1) - fmul(et, w._2)
    val ey = fmul(ef, w._2) + fmul(et, w._1)
    val nu1 = -fatan2(ey, ex)
    { e: fsqrt(fsq(ef) + fsq(et)), p: t.n1 + fmul(t.n1, ex), nu1: nu1, nu2: nu1 + t.th, k: ONE - fsq(ef) - fsq(et) } }
  // the arc is there: the conic does not go to infinity on the way, nor is it nearly a straight line
  pure def admissible(t: Tri, q: Conic): bool =
    q.p * 1000 >= t.n1 and q.p * 1000 >= t.n2 and q.e <= 20 * ONE and t.c * 10^5 >= imax(t.n1, t.n2) and
    (q.k == 0 or iabs(q.k) * 10^12 >= ONE) and (q.k > 0 or { val lim = nuLimit(q.e) - ONE / 1000  q.nu1 > -lim and q.nu2 < lim })
  pure def flightTime(q: Conic, mu: int): int = {
    val t = sincePeriapsis(q.p, q.e, q.nu2) - sincePeriapsis(q.p, q.e, q.nu1)
    t * ONE / fsqrt(mu) }
  pure def timeTol(q: Conic, mu: int, tof: int): int = {
    // the anomalies are as small as the square root of k next to the parabola, and known as well as k is; an error of the angles becomes one of the time
    val k = if (q.k == 0) ONE else iabs(q.k)
    val a = q.p * ONE / k
    val scale = fmul(a, fsqrt(a * ONE / mu))
    val far = imax(radius(q.p, q.e, q.nu1), radius(q.p, q.e, q.nu2))
    val rp = far * ONE / q.p
    val ea = fmul(fsqrt(k), 4 * ONE + 2 * fsqrt(rp) + fmul(q.e, rp))
    64 * fmul(EPS, fmul(fmul(scale, ea), ONE + rp) + iabs(tof) * ONE / k) + 64 * fmul(EPS, fsq(far) * ONE / fsqrt(fmul(mu, q.p))) }
  pure def geometryOk(x: List[int], y: List[int]): str = {
    val a = three(x, 0)
    val b = three(x, 3)
    val p = pair(a, b)
    val t0 = triangle(a, b, x[6] != 0)
    val t = if (p.ambiguous and off(y[3], t0.th) > off(y[3], TWO_PI - t0.th)) turned(t0) else t0
    first([must(off(y[0], t.n1) <= eps(8, t.n1) and off(y[1], t.n2) <= eps(8, t.n2), "wrong distances"),
           must(off(y[2], t.c) <= eps(8, t.n1 + t.n2), "wrong length of the chord"),
           angleOk(p, x[6] != 0, y[3]),
           must(apart(y[4], t.wc) <= t.blur, "wrong direction of the chord")]) }
  pure def conicOk(f: int, x: List[int], y: List[int], fin: bool): str = {
    val i = if (f == COET) 1 else 0
    val et = if (f == COET) x[0] else x[7]
    val a = three(x, i)
    val b = three(x, i + 3)
    val p = pair(a, b)
    val pro = x[i + 6] != 0
    val t = triangle(a, b, pro)
    val q = conicAt(t, et)
    val loss = t.blur + 4 * blur(p)
    if (p.ambiguous or not(defined(p)) or nearlyCollinear(p) or not(admissible(t, q))) ""
    else if (not(fin) and not(f == EAP and q.k == 0)) "result is not finite"        // (the semi-major axis of a parabola is infinite)
    else if (f == EAP) first([must(off(y[0], q.e) <= fmul(loss, ONE + iabs(et)), "wrong eccentricity"),
                              must(off(y[2], q.p) <= fmul(8 * loss, q.p + t.n1 + t.n2 + fmul(iabs(et), t.n1 + t.n2)), "wrong semi-latus rectum"),
                              must(q.k == 0 or off(fmul(y[1], q.k), q.p) <= fmul(8 * loss, q.p + t.n1 + t.n2 + fmul(iabs(et), t.n1 + t.n2)) + fmul(32 * loss, fmul(q.p, ONE + fsq(q.e))) * ONE / imax(iabs(q.k), 1), "wrong semi-major axis")])
    else if (f == TOFT) { val tof = flightTime(q, x[8])  must(off(y[0], tof) <= fmul(loss * ONE / EPS, timeTol(q, x[8], tof)), "not the time of flight along that conic") }
    else {
      val s1 = stateOf(ONE, y[0], y[1], y[2], y[3], y[4], y[5])
      val s2 = stateOf(ONE, y[0], y[1], y[2], y[3], y[4], y[6])
      val hz = fcos(y[2])
      // (the inclination comes from its cosine)
      val tilt = imin(fsqrt(4 * loss), 4 * loss * ONE / imax(fsin(y[2]), EPS))
      val tol = fmul(64 * loss, 4 * ONE + fmul(ONE + iabs(et), (t.n1 + t.n2) * ONE / q.p)) + 4 * tilt
      first([must(off(y[1], q.e) <= fmul(loss, ONE + iabs(et)), "wrong eccentricity"),
             must(y[2] >= 0 and y[2] <= PI_DOUBLE and ((hz >= 0) == pro or iabs(hz) <= 4 * loss), "inclination of the other sense of motion"),
             must(apart(y[6] - y[5], t.th) <= 64 * loss, "the true anomalies are not a transfer angle apart"),
             must(vmax(vsub(s1.r, a)) <= fmul(tol, t.n1), "the conic does not leave from the first position"),
             must(vmax(vsub(s2.r, b)) <= fmul(tol, t.n2), "the conic does not arrive at the second position")]) } }

  // ---- Gooding -------------------------------------------------------------------------------------------
  // derivatives of the time (Izzo's, half of Gooding's)
  type Jet = { t: int, d1: int, d2: int, d3: int }
  pure def jetAt(l: int, x: int, m: int): Jet = {
    val t = timeOf(l, x, m)
    val u = ONE - fsq(x)
    val y = yOf(l, x)
    val l2 = fsq(l)
    val l3 = fmul(l, l2)
    val g = fmul(ONE - l2, l3)
    if (u == 0) {
      val d1 = -(2 * (ONE - fmul(l3, l2)) / 5)
      val d2 = -((8 * d1 - 6 * fmul(g, l2)) / 7)
      { t: t, d1: d1, d2: d2, d3: -((15 * d2 - 6 * fmul(fmul(g, l2), ONE - 5 * l2)) / 9) }
    } else {
      val y3 = fmul(y, fsq(y))
      val d1 = (3 * fmul(t, x) - 2 * ONE + 2 * fmul(l3, x) * ONE / y) * ONE / u
      val d2 = (3 * t + 5 * fmul(x, d1) + 2 * g * ONE / y3) * ONE / u
      { t: t, d1: d1, d2: d2, d3: (7 * fmul(x, d2) + 8 * d1 - 6 * fmul(fmul(g, l2), x) * ONE / fmul(y3, fsq(y))) * ONE / u } } }
  pure def jet(l: int, x: int, m: int): Jet = {
    val d = x - ONE
    if (iabs(d) > ONE / 10^9) jetAt(l, x, m) else {
      val j = jetAt(l, ONE, 0)           // next to the parabola
      { t: j.t + fmul(d, j.d1) + fmul(fsq(d), j.d2) / 2, d1: j.d1 + fmul(d, j.d2) + fmul(fsq(d), j.d3) / 2, d2: j.d2 + fmul(d, j.d3), d3: j.d3 } } }
  pure def tlambOk(x: List[int], y: List[int]): str = {
    val m = x[0] / ONE
    val l = x[1]
    val n = x[4] / ONE
    val u = ONE - fsq(x[3])
    val yy = yOf(l, x[3])
    if (n == -1) {
      val lx = fmul(l, yy)
      val tol = 64 * fmul(EPS, ONE + iabs(x[3]))
      first([must(off(y[1], lx - x[3]) <= tol and off(y[2], lx + x[3]) <= tol, "wrong radial velocities"), must(off(y[3], yy + fmul(l, x[3])) <= tol, "wrong transverse velocity")])
    } else {
      val j = jet(l, x[3], m)
      // next to the parabola the series is used for direct transfers only
      val k = if (m == 0 and x[3] >= 0 and iabs(u) <= 4 * ONE / 10) ONE / 4 else imin(iabs(u), ONE)
      val big = iabs(j.t) + (2 * ONE + iabs(x[3])) * ONE / k
      val e0 = 16 * fmul(EPS, big) * ONE / k
      val e1 = (8 * e0 + 64 * fmul(EPS, ONE + iabs(j.d1) + ONE * ONE / imax(yy, EPS))) * ONE / k
      val e2 = (8 * e1 + 64 * fmul(EPS, ONE + iabs(j.d2) + ONE * ONE / imax(fmul(yy, fsq(yy)), EPS))) * ONE / k
      val e3 = (16 * e2 + 64 * fmul(EPS, ONE + iabs(j.d3) + ONE * ONE / imax(fmul(fmul(yy, fsq(yy)), fsq(yy)), EPS))) * ONE / k
      // the series ends when the time does not change any more, be its derivatives converged or not
      val v = iabs(u)
      val c2 = if (k == ONE / 4 and v > 0) 64 * imin(EPS * ONE / v, v) else 0
      val c3 = if (k == ONE / 4 and v > 0) 1024 * (if (v * 10^8 < ONE) v else imin(EPS * ONE / imax(fsq(v), 1), v)) else 0
      first([must(off(y[0], 2 * j.t) <= 2 * e0, "wrong time of flight"),
             must(n < 1 or off(y[1], 2 * j.d1) <= 2 * e1, "wrong first derivative"),
             must(n < 2 or off(y[2], 2 * j.d2) <= 2 * e2 + c2, "wrong second derivative"),
             must(n < 3 or off(y[3], 2 * j.d3) <= 2 * e3 + c3, "wrong third derivative")]) } }
  // does the time T (Izzo's) belong to x give or take dx?  The time falls or rises with x
  pure def belongs(l: int, m: int, x: int, dx: int, tt: int): bool = {
    val j = jet(l, x, m)
    off(j.t, tt) <= fmul(iabs(j.d1), dx) + fmul(iabs(j.d2), fsq(dx)) + fmul(ONE / 10^11, tt) }
  pure def stepOf(atol: int, rtol: int, x: int): int = imin(atol, fmul(rtol, imax(iabs(x), ONE)))
  pure def xlambOk(x: List[int], y: List[int]): str = {
    val m = x[0] / ONE
    def good(v) = v > -ONE and belongs(x[1], m, v, 4 * stepOf(x[5], x[6], v), x[3] / 2)
    first([must(y[0] == ONE or (m > 0 and y[0] == 2 * ONE), "wrong number of solutions"),
           must(good(y[1]), "x does not have this time of flight"),
           must(y[0] != 2 * ONE or good(y[2]), "the second x does not have this time of flight"),
           must(y[0] != 2 * ONE or isgn(jet(x[1], y[1], m).d1) != isgn(jet(x[1], y[2], m).d1) or
                iabs(fmul(ONE - fsq(y[1]), jet(x[1], y[1], m).d1)) < fmul(x[3], ONE / 1000), "both solutions are on one path"),
           must(y[3] >= ONE and y[3] <= x[4], "wrong number of iterations")]) }
  // is the time of flight clearly above the minimum, if there is one?
  pure def xlambMust(x: List[int]): bool = {
    val m = x[0] / ONE
    x[4] >= 100 * ONE and x[3] > 0 and (m == 0 or x[3] / 2 > fmul(minimumTime(x[1], m), 1005 * ONE / 1000)) }
  pure def xlambMustNot(x: List[int]): bool = { val m = x[0] / ONE  m > 0 and x[3] / 2 < fmul(minimumTime(x[1], m), 995 * ONE / 1000) }
  // the velocities take the motion from one position to the other: in units of r1 and mu = 1
  pure def vlambOk(x: List[int], y: List[int]): str = {
    val m = fldiv(x[3], TWO_PI)
    val c = fcossin(x[3])
    val vel = fsqrt(x[0] * ONE / x[1])
    val k = x[2] * ONE / x[1]
    val tof = fmul(x[4], vel) * ONE / x[1]
    val r2 = vec(fmul(k, c._1), fmul(k, c._2), 0)
    val f = flight(vec(ONE, 0, 0), vec(y[0] * ONE / vel, y[1] * ONE / vel, 0), r2, m)
    val w2 = vec((fmul(y[2], c._1) - fmul(y[3], c._2)) * ONE / vel, (fmul(y[2], c._2) + fmul(y[3], c._1)) * ONE / vel, 0)
    val tol = if (x[7] < ONE / 10^9) ONE / 10^8 else ONE / 10^6
    if (not(f.ok) or f.hz < 0) "the motion does not get there"
    else first([must(off(f.r2, k) <= fmul(tol, k + fmul(k, k)) * 10, "the motion misses the second position"), must(off(f.tof, tof) <= fmul(tol, tof) * 10, "the motion takes another time"),
                must(vmax(vsub(f.v2, w2)) <= fmul(tol, vmax(f.v2) + ONE) * 10, "the final velocity is another one"),
                must(y[4] >= ONE and y[4] <= x[6], "wrong number of iterations")]) }

  // ---- Thorne --------------------------------------------------------------------------------------------
  // (sign: -1 short way, 1 long way)
  pure def lamOf(s: int, c: int, mp: int): int = -fmul(mp, fsqrt(ONE - c * ONE / s))
  pure def timeUnit(mu: int, s: int): int = fsqrt(fmul(s, fsq(s)) * ONE / (2 * mu))
  pure def lagrangeX(s: int, a: int, branch: int): int = { val x = fsqrt(ONE - s * ONE / (2 * a))  if (branch == 2) -x else x }
  pure def lagrangeOk(x: List[int], y: int): str = {
    val l = lamOf(x[1], x[2], x[4])
    val v = lagrangeX(x[1], x[3], x[5] / ONE)
    val t = fmul(timeUnit(x[0], x[1]), timeOf(l, v, 0))
    val a = iabs(x[3])
    val scale = fmul(a, fsqrt(a * ONE / x[0]))
    val near0 = imax(imin(iabs(v), yOf(l, v)), ONE / 10^7)           // next to the minimum energy the arc sine amplifies
    must(off(y, t) <= 64 * fmul(EPS, scale + t) + 64 * fmul(EPS, scale) * ONE / near0, "not Lagrange's time of flight") }
  // x|x| gives or takes what the tolerances leave of the semi-major axis
  pure def root(w: int): int = if (w >= 0) fsqrt(w) else -fsqrt(-w)
  pure def semiOk(x: List[int], y: int): str = {
    val l = lamOf(x[1], x[2], x[6])
    val unit = timeUnit(x[0], x[1])
    val tt = x[3] * ONE / unit
    val k = iabs(ONE - fsq(y))                                       // s / 2a
    val atol = x[8]
    val rtol = x[9]
    val a = if (k == 0) 0 else x[1] * ONE / (2 * k)
    val d = if (k == 0) 0 else fmul(k, 2 * (atol + fmul(rtol, a))) * ONE / a + 16 * EPS
    val w = fmul(y, iabs(y))
    val slack = fmul(ONE / 10^12, tt) + (if (k < ONE / 1000) fmul(ONE / 10^6, fmul(ONE / 1000, tt)) * ONE / imax(k, ONE / 10^6) else 0)
    val closeBy = (atol + fmul(2 * rtol, x[3])) * ONE / unit
    val between = y > -ONE and w - d > -ONE and timeOf(l, root(w + d), 0) - slack <= tt and tt <= timeOf(l, root(w - d), 0) + slack
    val special = (y == ONE or y == 0) and off(timeOf(l, y, 0), tt) <= closeBy + fmul(4 * EPS, tt)
    must(if (k == 0) special else between or (y == 0 and special), "the semi-major axis does not have this time of flight") }
  pure def recoOk(x: List[int], y: List[int]): str = {
    val a = three(x, 3)
    val b = three(x, 6)
    val n1 = vnorm(a)
    val n2 = vnorm(b)
    val p = pair(a, b)
    val h = fatan2(p.c, p.d)
    val long = x[11] > PI
    val half = fcossin(if (long) (TWO_PI - h) / 2 else h / 2)
    val g = geometry(n1, n2, half._1, half._2)
    val en = endsOf(g, x[0])
    val s = if (long) -ONE else ONE
    val u = vec(fmul(s, p.h.x * ONE / p.c), fmul(s, p.h.y * ONE / p.c), fmul(s, p.h.z * ONE / p.c))
    val u1 = vec(a.x * ONE / n1, a.y * ONE / n1, a.z * ONE / n1)
    val u2 = vec(b.x * ONE / n2, b.y * ONE / n2, b.z * ONE / n2)
    val vel = fsqrt(x[2])
    val w1 = vscale(vel, vadd(vscale(en.vr1, u1), vscale(en.vt1, vcross(u, u1))))
    val w2 = vscale(vel, vadd(vscale(en.vr2, u2), vscale(en.vt2, vcross(u, u2))))
    val tol = fmul(vmax(w1) + vmax(w2) + vel * ONE / fsqrt(g.s), ONE / 10^10)
    first([must(vmax(vsub(three(y, 0), w1)) <= tol, "wrong initial velocity"), must(vmax(vsub(three(y, 3), w2)) <= tol, "wrong final velocity")]) }

  // t / tp - 1 = A1 w + A2 w^2 + ..., where w = s / 2a
  pure def seriesA(s: int, c: int, mp: int, n: int): List[int] = {
    val k = fsqrt(ONE - c * ONE / s)
    val k3 = fmul(k, fsq(k))
    val d = ONE + fmul(mp, k3)
    range(1, n + 1).foldl({ r: ONE, k: k3, l: [] }, (z, i) => {
      val r = z.r * (2 * i - 1) * (2 * i + 1) / ((2 * i + 3) * 2 * i)
      val kk = fmul(z.k, fsq(k))
      { r: r, k: kk, l: z.l.append(fmul(r, ONE + fmul(mp, kk)) * ONE / d) } }).l }
  // powers of the reverted series: q[i][j] is the coefficient of t^(i+1) in w^(j+1), if t = a[0] w + a[1] w^2 + ...
  pure def powersOf(a: List[int], n: int): List[List[int]] =
    range(0, n).foldl([], (q, i) => {
      // row i but its first element, from the first column so far
      val rest = range(1, i + 1).foldl([], (l, j) => l.append(range(0, i).foldl(0, (t, k) => t + (if (i - k - 1 >= j - 1) fmul(q[i - k - 1][j - 1], q[k][0]) else 0))))
      val lead = if (i == 0) ONE * ONE / a[0] else -(range(1, i + 1).foldl(0, (t, j) => t + fmul(rest[j - 1], a[j])) * ONE / a[0])
      q.append([lead].concat(rest).concat(range(i + 1, n).foldl([], (l, j) => l.append(0)))) })
  // 1 / w = B1 / t + B2 + B3 t + ...
  pure def inverseOf(a: List[int], n: int): List[int] = {
    val q = powersOf(a, n)
    range(0, n).foldl([], (b, i) => b.append(((if (i == 0) ONE else 0) - range(0, i).foldl(0, (t, k) => t + fmul(b[k], q[i - k][0]))) * ONE / q[0][0])) }
  // whatever is summed up on the way is bounded by the same series of these coefficients
  pure def majorant(a: List[int]): List[int] = range(0, a.length()).foldl([], (l, i) => l.append(if (i == 0) iabs(a[i]) else -iabs(a[i])))
  pure def minorant(a: List[int]): List[int] = a.foldl([], (l, v) => l.append(iabs(v)))
  pure def seriesOk(f: int, x: List[int], y: List[int]): str = {
    val n = (if (f == SERI) x[2] else x[8]) / ONE
    val a = if (f == SERI) seriesA(x[0], x[1], x[3], n) else x.slice(0, 8)
    if (f == SERI) must(range(0, n).indices().forall(i => off(y[i], a[i]) <= 64 * fmul(EPS, fmul(a[i], 4 * ONE + x[0] * ONE / x[1]))), "not the series of the time of flight")
    else if (f == REVE) {
      val q = powersOf(a, n)
      val m = powersOf(majorant(a), n)
      must(range(0, n).indices().forall(i => range(0, n).indices().forall(j => off(y[i * n + j], q[i][j]) <= fmul(256 * EPS, iabs(m[i][j])))), "not the powers of the reverted series")
    } else {
      val b = inverseOf(a, n)
      val m = powersOf(majorant(a), n)
      // each coefficient is a sum of powers
      must(range(0, n).indices().forall(i => off(y[i], b[i]) <= fmul(1024 * EPS, if (i == 0) iabs(a[0]) else range(0, i).foldl(0, (t, j) => t + fmul(iabs(m[i - 1][j]), iabs(a[j + 1]))))), "not the reverted and inverted series") } }
  // a bound is the first of start, 2 start, 4 start, ... beyond the semi-major axis
  pure def boundOk(f: int, x: List[int], y: int): str = {
    val br = if (f == LOWE) 0 else x[5] / ONE
    val start = if (f == LOWE) x[5] else x[6]
    val l = lamOf(x[1], x[2], x[4])
    def rest(a) = fmul(timeUnit(x[0], x[1]), timeOf(l, lagrangeX(x[1], a, br), 0)) - x[3]      // rises with a on branch B, and towards the parabola on branch H
    val s = if (br == 1) -1 else 1
    val blurT = fmul(ONE / 10^8, x[3])
    val n = range(0, 60).foldl(0, (m, i) => if (off(start * 2^i, y) <= eps(1, y)) i + 1 else m)
    first([must(n > 0, "the bound is not the start, doubled again and again"), must(s * rest(y) >= -blurT, "the bound is not beyond the semi-major axis"),
           must(n == 1 or s * rest(y / 2) <= blurT, "the bound is further than needed")]) }

  // ---- the verdict ---------------------------------------------------------------------------------------
  pure def resultsOf(f: int): int =
    if (f == GEOM or f == XLAMB) 5 else if (f == FUND or f == EAP) 3 else if (f == COET) 7 else if (f == TLAMB) 4 else if (f == VLAMB or f == RECO) 6 else 1
  pure def resultsAt(f: int, x: List[int]): int = if (f == SERI) x[2] / ONE else if (f == REVE) x[8] * x[8] / (ONE * ONE) else if (f == INVE) x[8] / ONE else resultsOf(f)
  pure def planeless(c: Call, i: int): bool = { val p = pair(three(c.x, i), three(c.x, i + 3))  collinear(p) }
  pure def fuzzy(c: Call, i: int): bool = { val p = pair(three(c.x, i), three(c.x, i + 3))  nearlyCollinear(p) }
  // status 6: there is no such function, or it takes other arguments; 5: it returns something else (nothing is claimed then, these functions
  // being parts of the solvers and no interface of theirs)
  pure def judgeLaw(c: Call): str = {
    val at = if (c.f == COET) 1 else 0
    val transfer = c.f >= GEOM and c.f <= COET and c.f != FUND
    if (c.status == 6 or c.status == 5 or (c.status == 0 and c.y.length() != resultsAt(c.f, c.x))) ""
    else if (c.status == 4) "did not end"
    else if (c.status == 3) "raised another exception"
    else if (transfer and planeless(c, at)) must(c.status == 1, "accepted collinear positions")
    else if (transfer and fuzzy(c, at)) ""
    else if (c.f == XLAMB and xlambMustNot(c.x)) must(c.status == 1, "accepted less than the minimum time")
    else if (c.f == XLAMB and c.status == 1) must(not(xlambMust(c.x)), "raised an exception")
    else if (c.f == VLAMB and c.status == 1 and c.x[3] > TWO_PI) ""
    else if (c.status != 0) "raised an exception"
    else if (transfer and c.f != GEOM) conicOk(c.f, c.x, c.y, c.fin)
    else if (not(c.fin)) "result is not finite"
    else if (c.f == GEOM) geometryOk(c.x, c.y)
    else if (c.f == FUND) {
      val e = (c.x[0] - c.x[1]) * ONE / c.x[2]
      first([must(off(c.y[0], e) <= eps(4, e) + eps(4, fmul(e, (c.x[0] + c.x[1]) * ONE / imax(iabs(c.x[0] - c.x[1]), 1))), "wrong eccentricity"),
             must(off(c.y[1], (c.x[0] + c.x[1]) / 2) <= eps(4, c.x[0] + c.x[1]), "wrong semi-major axis"),
             must(off(c.y[2], fmul((c.x[0] + c.x[1]) / 2, ONE - fsq(e))) <= eps(16, fmul(c.x[0] + c.x[1], ONE + fsq(e))), "wrong semi-latus rectum")]) }
    else if (c.f == TLAMB) tlambOk(c.x, c.y)
    else if (c.f == XLAMB) xlambOk(c.x, c.y)
    else if (c.f == VLAMB) vlambOk(c.x, c.y)
    else if (c.f == TPAR or c.f == TMIN) {
      val t = fmul(timeUnit(c.x[0], c.x[1]), timeOf(lamOf(c.x[1], c.x[2], c.x[3]), if (c.f == TPAR) ONE else 0, 0))
      must(off(c.y[0], t) <= 64 * fmul(EPS, timeUnit(c.x[0], c.x[1]) + timeUnit(c.x[0], c.x[1]) * ONE / fsqrt(c.x[2] * ONE / c.x[1])), if (c.f == TPAR) "not the parabolic time" else "not the minimum-energy time") }
    else if (c.f == LAGR) lagrangeOk(c.x, c.y[0])
    else if (c.f == SEMI) semiOk(c.x, c.y[0])
    else if (c.f == RECO) recoOk(c.x, c.y)
    else if (c.f >= SERI and c.f <= INVE) seriesOk(c.f, c.x, c.y)
    else if (c.f == LOWE or c.f == UPPE) boundOk(c.f, c.x, c.y[0])
    else { val v = 3 * timeOf(0, ONE - 2 * c.x[0], 0) / 2  must(off(c.y[0], v) <= fmul(ONE / 10^12, v), "wrong hypergeometric function") } }
}
