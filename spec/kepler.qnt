// The two-body problem in canonical units (mu = 1): conics, time laws, and the certificate that
// two states are joined by an arc of a Keplerian orbit.
module kepler {
  import fixed.* from "fixed"

  // ---- time since periapsis on a conic of semi-latus rectum p and eccentricity e, at true anomaly nu ------
  // (mean anomalies are kept unreduced: nu and the eccentric anomaly are in the same revolution)
  pure def eccentricAnomaly(e: int, nu: int): int = {
    val k = fldiv(nu + PI, TWO_PI)
    val cs = fcossin(nu)
    fatan2(fmul(fsqrt(ONE - fsq(e)), cs._2), e + cs._1) + k * TWO_PI
  }
  pure def hyperbolicAnomaly(e: int, nu: int): int = {
    val cs = fcossin(nu / 2)
    2 * fatanh(fsqrt((e - ONE) * ONE / (e + ONE)) * cs._2 / cs._1)
  }
  pure def sincePeriapsis(p: int, e: int, nu: int): int =
    if (e == ONE) {
      val cs = fcossin(nu / 2)
      val d = cs._2 * ONE / cs._1
      // Barker: t = sqrt(p^3)/2 (D + D^3/3)
      fmul(fmul(p, fsqrt(p)), d + fmul(d, fsq(d)) / 3) / 2
    } else if (e < ONE) {
      val a = p * ONE / (ONE - fsq(e))
      val ea = eccentricAnomaly(e, nu)
      fmul(fmul(a, fsqrt(a)), ea - fmul(e, fsin(ea)))
    } else {
      val a = p * ONE / (fsq(e) - ONE)
      val f = hyperbolicAnomaly(e, nu)
      fmul(fmul(a, fsqrt(a)), fmul(e, fsinh(f)) - f)
    }
  pure def period(p: int, e: int): int = {
    val a = p * ONE / (ONE - fsq(e))
    fmul(fmul(a, fsqrt(a)), TWO_PI)
  }
  // limit of the true anomaly: pi for closed orbits and the parabola, acos(-1/e) for hyperbolas
  pure def nuLimit(e: int): int = if (e <= ONE) PI else facos(-(ONE * ONE / e))

  // ---- orbit in its own plane: radius, radial and transverse velocity ------------------------------------
  pure def radius(p: int, e: int, nu: int): int = p * ONE / (ONE + fmul(e, fcos(nu)))
  // perifocal state: position and velocity in the (periapsis, quadrature) axes
  type Plane = { rx: int, ry: int, vx: int, vy: int, r: int }
  pure def planeState(p: int, e: int, nu: int): Plane = {
    val cs = fcossin(nu)
    val r = p * ONE / (ONE + fmul(e, cs._1))
    val k = ONE * ONE / fsqrt(p)
    { rx: fmul(r, cs._1), ry: fmul(r, cs._2), vx: -fmul(k, cs._2), vy: fmul(k, e + cs._1), r: r }
  }

  // ---- orientation: a rational rotation from an integer quaternion ----------------------------------------
  type Quat = { a: int, b: int, c: int, d: int }
  // coordinates of the perifocal vector (x, y, 0) after the rotation (exact up to one final division)
  // (what is left of a rounding error is taken for the zero it stands for: vectors along the axes are exactly along them)
  pure def clean(a: int): int = if (iabs(a) < 10^20) 0 else a
  pure def rotate(q: Quat, x: int, y: int): V3 = {
    val n = q.a * q.a + q.b * q.b + q.c * q.c + q.d * q.d
    { x: clean((x * (q.a * q.a + q.b * q.b - q.c * q.c - q.d * q.d) + y * 2 * (q.b * q.c - q.a * q.d)) / n),
      y: clean((x * 2 * (q.b * q.c + q.a * q.d) + y * (q.a * q.a - q.b * q.b + q.c * q.c - q.d * q.d)) / n),
      z: clean((x * 2 * (q.b * q.d - q.a * q.c) + y * 2 * (q.c * q.d + q.a * q.b)) / n) }
  }
  // polar component of the rotated normal, as a fixed-point number in [-1, 1]
  pure def polar(q: Quat): int =
    (q.a * q.a - q.b * q.b - q.c * q.c + q.d * q.d) * ONE / (q.a * q.a + q.b * q.b + q.c * q.c + q.d * q.d)

  // ---- the arc certificate --------------------------------------------------------------------------------
  // Given r1, v1 (mu = 1) and a target r2: what the Keplerian motion does on its first pass (after `revs`
  // complete revolutions) through the direction of r2.
  type Flight = {
    ok: bool,        // the motion does pass through that direction
    plane: int,      // out-of-plane component of r2 relative to its length
    r2: int,         // radius there
    v2: V3,          // velocity there
    tof: int,        // time to get there
    hz: int,         // polar component of the unit normal
    alpha: int,      // 1/a
    theta: int       // cos(theta/2) with sign: > 0 short way, < 0 long way
  }
  pure val NOFLIGHT: Flight = { ok: false, plane: 0, r2: 0, v2: vec(0, 0, 0), tof: 0, hz: 0, alpha: 0, theta: 0 }
  pure def flight(r1: V3, v1: V3, r2: V3, revs: int): Flight = {
    val n1 = vnorm(r1)
    val n2 = vnorm(r2)
    val h = vcross(r1, v1)
    val hn = vnorm(h)
    if (n1 == 0 or n2 == 0 or hn < ONE / 10^20) NOFLIGHT else {
      val p = fsq(hn)
      val hu = vec(h.x * ONE / hn, h.y * ONE / hn, h.z * ONE / hn)
      val u1 = vec(r1.x * ONE / n1, r1.y * ONE / n1, r1.z * ONE / n1)
      val u2 = vec(r2.x * ONE / n2, r2.y * ONE / n2, r2.z * ONE / n2)
      val ct = vdot(u1, u2)
      val st = vdot(vcross(u1, u2), hu)
      val s = fsqrt((ONE - ct) / 2)
      val c = if (st >= 0) fsqrt((ONE + ct) / 2) else -fsqrt((ONE + ct) / 2)
      val sig1 = vdot(r1, v1)
      val alpha = 2 * ONE * ONE / n1 - vdot(v1, v1)
      val sp = hn
      val ec1 = p * ONE / n1 - ONE
      val es1 = sig1 * sp / n1
      val ec2 = fmul(ec1, ct) - fmul(es1, st)
      val es2 = fmul(es1, ct) + fmul(ec1, st)
      val den = fmul(sp, c) - fmul(sig1, s)
      if (ONE + ec2 <= 0 or s == 0) NOFLIGHT else {
        val rr2 = p * ONE / (ONE + ec2)
        val w2 = vcross(hu, u2)
        val v2 = vadd(vscale(es2 * ONE / sp, u2), vscale(sp * ONE / rr2, w2))
        val sig2 = fmul(rr2, es2 * ONE / sp)
        val num = fmul(n1, s)
        val small = ONE / 10^18
        if (alpha > small) {
          val ra = fsqrt(alpha)
          val dE = 2 * fatan2(fmul(ra, num), den)
          val m = dE + revs * TWO_PI - fmul(ra, sig2 - sig1)
          { ok: true, plane: vdot(hu, u2), r2: rr2, v2: v2, tof: m * ONE / fmul(alpha, ra), hz: hu.z, alpha: alpha, theta: c }
        } else if (revs > 0 or den <= 0) NOFLIGHT
        else if (alpha < -small) {
          val ra = fsqrt(-alpha)
          val th = fmul(ra, num) * ONE / den
          if (th >= ONE) NOFLIGHT else {
            val m = fmul(ra, sig2 - sig1) - 2 * fatanh(th)
            { ok: true, plane: vdot(hu, u2), r2: rr2, v2: v2, tof: m * ONE / fmul(-alpha, ra), hz: hu.z, alpha: alpha, theta: c }
          }
        } else {
          val chi = 2 * num * ONE / den
          val t = fmul(n1, chi) + fmul(sig1, fsq(chi)) / 2 + fmul(chi, fsq(chi)) / 6
          { ok: true, plane: vdot(hu, u2), r2: rr2, v2: v2, tof: t, hz: hu.z, alpha: alpha, theta: c }
        }
      }
    }
  }
}
