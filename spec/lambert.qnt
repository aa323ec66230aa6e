// Lambert's problem: requests with known solutions, and what an answer to a request has to satisfy.
module lambert {
  import fixed.* from "fixed"
  import kepler.* from "kepler"

  // A request in physical units together with the solution(s) the two-body problem prescribes.
  type Prob = {
    cls: int,            // class of the generator (stratum)
    mu: int, len: int, tim: int,   // gravitational parameter, units of length and time (len^3 / tim^2 = mu)
    r1: V3, r2: V3, tof: int,
    revs: int, pro: bool, low: bool,
    v1: V3, v2: V3,      // the solution
    c1: V3, c2: V3, w1: V3, ctof: int,  // r1, r2, v1, tof in canonical units
    hz: int,             // polar component of the unit normal (sense of motion)
    slope: int,          // (1-x^2) dT/dx relative to T: distance to the minimum-time ellipse (M >= 1)
    x: int, lam: int, tt: int,     // Lancaster-Blanchard parameter, lambda and time of flight
    ok: bool             // inside the domain of the class (otherwise the request is not made)
  }

  // ---- Lancaster-Blanchard-Gooding-Izzo formulation ----------------------------------------------------
  type Geo = { r1: int, r2: int, c: int, s: int, lam: int }
  // distances and half transfer angle (ch = cos(theta/2), sign included; sh = sin(theta/2) >= 0)
  pure def geometry(r1: int, r2: int, ch: int, sh: int): Geo = {
    val c = fsqrt(fsq(r1 - r2) + 4 * fmul(fmul(r1, r2), fsq(sh)))
    val s = (r1 + r2 + c) / 2
    { r1: r1, r2: r2, c: c, s: s, lam: fmul(fsqrt(fmul(r1, r2)), ch) * ONE / s }
  }
  pure def yOf(lam: int, x: int): int = fsqrt(ONE - fmul(fsq(lam), ONE - fsq(x)))
  // dimensionless time of flight T(x) for M revolutions
  pure def timeOf(lam: int, x: int, revs: int): int = {
    val w = ONE - fsq(x)
    val y = yOf(lam, x)
    if (w == 0) 2 * (ONE - fmul(lam, fsq(lam))) / 3
    else {
      val rw = fsqrt(iabs(w))
      val sp = fmul(y - fmul(x, lam), rw)
      val cp = fmul(x, y) + fmul(lam, w)
      val psi = if (w > 0) fatan2(sp, cp) else flog(cp + sp)
      ((psi + revs * PI) * ONE / rw - x + fmul(lam, y)) * ONE / w
    }
  }
  // (1 - x^2) dT/dx
  pure def slopeOf(lam: int, x: int, t: int): int =
    3 * fmul(t, x) - 2 * ONE + 2 * fmul(fmul(lam, fsq(lam)), x) * ONE / yOf(lam, x)

  // minimum-time ellipse for M >= 1: the slope changes sign once in (-1, 1)
  pure val IT34 = range(0, 34)
  pure def xOfMinimum(lam: int, revs: int): int = {
    val b = IT34.foldl((-ONE + ONE / 10^6, ONE - ONE / 10^6), (ab, _) => {
      val m = (ab._1 + ab._2) / 2
      if (slopeOf(lam, m, timeOf(lam, m, revs)) < 0) (m, ab._2) else (ab._1, m)
    })
    (b._1 + b._2) / 2
  }
  pure def minimumTime(lam: int, revs: int): int = timeOf(lam, xOfMinimum(lam, revs), revs)

  // velocities from x: radial and transverse components at both ends (mu = 1)
  type Ends = { vr1: int, vt1: int, vr2: int, vt2: int }
  pure def endsOf(g: Geo, x: int): Ends = {
    val y = yOf(g.lam, x)
    val gam = fsqrt(g.s / 2)
    val rho = (g.r1 - g.r2) * ONE / g.c
    val sig = fsqrt(ONE - fsq(rho))
    val ly = fmul(g.lam, y)
    val vt = fmul(fmul(gam, sig), y + fmul(g.lam, x))
    { vr1: fmul(gam, (ly - x) - fmul(rho, ly + x)) * ONE / g.r1,
      vr2: -(fmul(gam, (ly - x) + fmul(rho, ly + x)) * ONE / g.r2),
      vt1: vt * ONE / g.r1, vt2: vt * ONE / g.r2 }
  }

  // ---- units ------------------------------------------------------------------------------------------
  type Units = { mu: int, len: int }
  pure val UNITS: List[Units] = [
    { mu: ONE, len: ONE },                                                       // canonical
    { mu: 3986004418 * ONE / 10^4, len: 7000 * ONE },                            // Earth, km and s
    { mu: 39478417604357434 * ONE / 10^15, len: ONE },                           // Sun, au and years
    { mu: 132712440018 * ONE, len: 15 * 10^7 * ONE },                            // Sun, km and s
    { mu: 398600441800000 * ONE, len: 7 * 10^6 * ONE },                          // Earth, SI
    { mu: 132712440018000000000 * ONE, len: 15 * 10^10 * ONE },                  // Sun, SI
    { mu: 2959122082855911 * ONE / 10^19, len: ONE },                            // Sun, au and days
    { mu: 4463 * ONE / 10^7, len: 30 * ONE },                                    // Eros, km and s
    { mu: 8887692 * ONE / 10^16, len: 468 * ONE / 10^7 },                        // Earth, au and days
    { mu: 4902800 * ONE * 10^6, len: 1838 * ONE * 1000 }                         // Moon, SI
  ]
  pure def unitsAt(u: int): Units = UNITS[if (u < 0) 0 else u % UNITS.length()]

  // ---- route A: from an orbit -------------------------------------------------------------------------
  // p, e: conic; nu1, nu2: true anomalies (nu1 < nu2 < nu1 + 2 pi); q: orientation; u: units; revs
  pure def fromOrbit(cls: int, p: int, e: int, nu1: int, nu2: int, q: Quat, u: int, revs: int): Prob = {
    val s1 = planeState(p, e, nu1)
    val s2 = planeState(p, e, nu2)
    val t = sincePeriapsis(p, e, nu2) - sincePeriapsis(p, e, nu1) + (if (revs > 0) revs * period(p, e) else 0)
    val half = fcossin((nu2 - nu1) / 2)
    val g = geometry(s1.r, s2.r, half._1, half._2)
    val tt = fmul(t, fsqrt(2 * ONE * ONE / fmul(g.s, fsq(g.s))))
    // x from the energy and the branch: x = cos(alpha/2), 1/a = 2 (1-x^2)/s
    val w = fmul(g.s, ONE - fsq(e)) * ONE / (2 * p)
    val x =
      if (e < ONE) {
        val e1 = eccentricAnomaly(e, nu1)
        val e2 = eccentricAnomaly(e, nu2)
        val mid = (e1 + e2) / 2
        fcos((facos(fmul(e, fcos(mid))) + (e2 - e1) / 2) / 2)
      } else fsqrt(ONE - w)
    build(cls, rotate(q, s1.rx, s1.ry), rotate(q, s2.rx, s2.ry), rotate(q, s1.vx, s1.vy), rotate(q, s2.vx, s2.vy),
      t, polar(q), unitsAt(u), revs, x, g.lam, tt)
  }

  // ---- route B: from a geometry and the Lancaster-Blanchard parameter ----------------------------------
  // r1, r2: radii; theta: transfer angle in (0, 2 pi); x: energy and branch; phi: argument of r1 in the plane
  pure def fromGeometry(cls: int, r1: int, r2: int, theta: int, x: int, phi: int, q: Quat, u: int, revs: int): Prob = {
    val half = fcossin(theta / 2)
    val g = geometry(r1, r2, half._1, half._2)
    val tt = timeOf(g.lam, x, revs)
    val t = tt * ONE / fsqrt(2 * ONE * ONE / fmul(g.s, fsq(g.s)))
    val en = endsOf(g, x)
    val a = fcossin(phi)
    val b = fcossin(phi + theta)
    build(cls,
      rotate(q, fmul(r1, a._1), fmul(r1, a._2)), rotate(q, fmul(r2, b._1), fmul(r2, b._2)),
      rotate(q, fmul(en.vr1, a._1) - fmul(en.vt1, a._2), fmul(en.vr1, a._2) + fmul(en.vt1, a._1)),
      rotate(q, fmul(en.vr2, b._1) - fmul(en.vt2, b._2), fmul(en.vr2, b._2) + fmul(en.vt2, b._1)),
      t, polar(q), unitsAt(u), revs, x, g.lam, tt)
  }

  pure def build(cls: int, r1: V3, r2: V3, v1: V3, v2: V3, t: int, hz: int, un: Units, revs: int, x: int, lam: int, tt: int): Prob = {
    val tim = fsqrt(fmul(un.len, fsq(un.len)) * ONE / un.mu)
    val vel = un.len * ONE / tim
    val sl = slopeOf(lam, x, tt) * ONE / tt
    { cls: cls, mu: un.mu, len: un.len, tim: tim,
      r1: vscale(un.len, r1), r2: vscale(un.len, r2), tof: fmul(tim, t), revs: revs,
      pro: hz > 0, low: sl > 0,
      v1: vscale(vel, v1), v2: vscale(vel, v2),
      c1: r1, c2: r2, w1: v1, ctof: t, hz: hz, slope: sl, x: x, lam: lam, tt: tt, ok: true }
  }

  // ---- the other solution ------------------------------------------------------------------------------
  // x of the solution of T(x) = tt on the other side of the minimum time (bisection; 10^-20)
  pure val IT70 = range(0, 70)
  pure def otherX(lam: int, revs: int, tt: int, upper: bool): int = {
    val xm = xOfMinimum(lam, revs)
    val a0 = if (upper) xm else -ONE + ONE / 10^6
    val b0 = if (upper) ONE - ONE / 10^6 else xm
    val b = IT70.foldl((a0, b0), (ab, _) => {
      val m = (ab._1 + ab._2) / 2
      if ((timeOf(lam, m, revs) > tt) == upper) (ab._1, m) else (m, ab._2)
    })
    (b._1 + b._2) / 2
  }
  // the same request on the other path, with its solution
  pure def otherPath(q: Prob): Prob = {
    val x = otherX(q.lam, q.revs, q.tt, not(q.low))
    val n1 = vnorm(q.c1)
    val n2 = vnorm(q.c2)
    val h = vcross(q.c1, q.w1)
    val hn = vnorm(h)
    val hu = vec(h.x * ONE / hn, h.y * ONE / hn, h.z * ONE / hn)
    val c = fsqrt((ONE + vdot(q.c1, q.c2) * ONE / fmul(n1, n2)) / 2)
    val sh = fsqrt(ONE - fsq(c))
    val g = geometry(n1, n2, if (q.lam >= 0) c else -c, sh)
    val en = endsOf(g, x)
    val u1 = vec(q.c1.x * ONE / n1, q.c1.y * ONE / n1, q.c1.z * ONE / n1)
    val u2 = vec(q.c2.x * ONE / n2, q.c2.y * ONE / n2, q.c2.z * ONE / n2)
    val w1 = vadd(vscale(en.vr1, u1), vscale(en.vt1, vcross(hu, u1)))
    val w2 = vadd(vscale(en.vr2, u2), vscale(en.vt2, vcross(hu, u2)))
    val vel = q.len * ONE / q.tim
    { ...q, low: not(q.low), x: x, slope: slopeOf(q.lam, x, q.tt) * ONE / q.tt, v1: vscale(vel, w1), v2: vscale(vel, w2), w1: w1 }
  }
  // the same geometry with a time of flight k times as long (no solution is claimed)
  pure def withTime(q: Prob, k: int): Prob = { ...q, tof: fmul(q.tof, k), ctof: fmul(q.ctof, k), tt: fmul(q.tt, k) }

  // the time of flight is below that of every ellipse with this many revolutions: x is the minimum, and tt is below it
  pure def shortOfTime(q: Prob): bool = {
    val tm = timeOf(q.lam, q.x, q.revs)
    q.revs > 0 and q.tt < fmul(tm, 9995 * ONE / 10000) and
      timeOf(q.lam, q.x - ONE / 100, q.revs) > tm and timeOf(q.lam, q.x + ONE / 100, q.revs) > tm
  }

  // ---- the specification checks its own problems: the arc certificate holds for the solution -----------
  pure def near(a: int, b: int, tol: int): bool = iabs(a - b) <= fmul(tol, iabs(a) + iabs(b) + ONE / 10^6)
  pure def certified(q: Prob): bool = if (q.cls == 40) shortOfTime(q) else {
    val f = flight(q.c1, q.w1, q.c2, q.revs)
    val tol = ONE / 10^(if (q.cls >= 30) 17 else 24)      // the other solution is found by bisection
    and {
      f.ok,
      iabs(f.plane) <= tol,
      near(f.r2, vnorm(q.c2), tol),
      near(f.tof, q.ctof, tol),
      vmax(vsub(vscale(q.len * ONE / q.tim, f.v2), q.v2)) <= fmul(tol, vmax(q.v2)),
      near(timeOf(q.lam, q.x, q.revs), q.tt, tol)
    }
  }
}
