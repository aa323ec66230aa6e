// What counts as an answer to a Lambert request, and the name of the clause a wrong answer breaks.
module answers {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"
  import tape.* from "tape"

  // outcome of one call, as recorded by the driver
  // status: 0 returned, 1 ValueError, 2 RuntimeError, 3 any other exception, 4 did not end, 5 returned something malformed
  type Obs = { solver: int, cfg: int, status: int, msg: int, iters: int, fin: bool, v1: V3, v2: V3 }
  pure val HEAD = 8             // words of a pick and the number of observations
  pure val OBSW = 8             // words of an observation: solver|cfg, status|msg, iters, six doubles -> 2 + 6
  pure def pickOf(rec: int): Pick = {
    k: slot(rec, 0), a: slot(rec, 1), b: slot(rec, 2), c: slot(rec, 3), d: slot(rec, 4), e: slot(rec, 5), f: slot(rec, 6),
    o: slot(rec, 7), qa: slot(rec, 8), qb: slot(rec, 9), qc: slot(rec, 10), qd: slot(rec, 11), u: slot(rec, 12), m: slot(rec, 13) }
  pure def obsAt(rec: int, j: int): Obs = {
    val r = (rec / 2^(64 * (HEAD + OBSW * j))) % 2^(64 * OBSW)
    val h = word(r, 0)
    val g = word(r, 1)
    val fin = finite3(r, 2) and finite3(r, 5)
    { solver: h % 256, cfg: (h / 256) % 256, status: (h / 65536) % 256, msg: (h / 16777216) % 256, iters: g % P32 - 2^31,
      fin: fin, v1: if (fin) vec3(r, 2) else vec(0, 0, 0), v2: if (fin) vec3(r, 5) else vec(0, 0, 0) }
  }
  pure def countOf(rec: int): int = slot(rec, 14)

  // error of an answer relative to the speeds of the solution, as a fixed-point number
  pure def errorOf(q: Prob, o: Obs): int =
    imax(vmax(vsub(o.v1, q.v1)), vmax(vsub(o.v2, q.v2))) * ONE / imax(vmax(q.v1), vmax(q.v2))

  // does the orbit (r1, w1) go through r2 after tof, `revs` revolutions completed?  (tolerance on radius and time)
  pure def reaches(q: Prob, f: Flight, tol: int): bool = and {
    f.ok, iabs(f.plane) <= tol,
    iabs(f.r2 - vnorm(q.c2)) <= fmul(tol, vnorm(q.c2)),
    iabs(f.tof - q.ctof) <= fmul(tol, q.ctof) }

  // (orbits whose plane is exactly polar are neither prograde nor retrograde)
  // the first clause an inaccurate answer breaks
  pure def blame(q: Prob, o: Obs): str =
    if (not(o.fin)) "velocities are not finite" else {
      val k = q.tim * ONE / q.len
      val w1 = vscale(k, o.v1)
      val w2 = vscale(k, o.v2)
      val h = vcross(q.c1, w1)
      val f = flight(q.c1, w1, q.c2, q.revs)
      val loose = ONE / 100
      if (vnorm(h) < ONE / 10^9) "motion is rectilinear"
      else if ((h.z > 0) != q.pro and iabs(h.z) > fmul(vnorm(q.c1), vnorm(w1)) / 10^12) "wrong sense of motion"
      else if (not(f.ok)) "never reaches the direction of r2"
      else if (iabs(f.plane) > ONE / 10^6) "leaves the plane of r1 and r2"
      else if (iabs(f.r2 - vnorm(q.c2)) > fmul(loose, vnorm(q.c2))) "misses r2"
      else if (iabs(f.tof - q.ctof) > fmul(loose, q.ctof)) {
        if (0.to(24).exists(m => m != q.revs and reaches(q, flight(q.c1, w1, q.c2, m), loose))) "wrong number of revolutions"
        else "wrong time of flight" }
      else if (vmax(vsub(f.v2, w2)) > fmul(loose, vmax(w2))) "wrong velocity at r2"
      else if (q.revs > 0 and vmax(vsub(w1, q.w1)) > fmul(loose, vmax(q.w1))) "wrong path"
      else "not accurate enough"
    }
}
