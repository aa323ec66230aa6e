// Generator machine of requests made of small integers.
module latgen {
  import fixed.* from "fixed"
  import lattice.* from "lattice"
  const REVS: List[int]
  var pick: LatPick
  var req: Lat
  action init = all { pick' = LAT0, req' = lat(LAT0) }
  action step = {
    nondet a = (-7).to(7).oneOf()
    nondet b = (-7).to(7).oneOf()
    nondet c = Set(0, 0, 0, 1, -1, 2, -3, 5).oneOf()
    nondet d = (-7).to(7).oneOf()
    nondet e = (-7).to(7).oneOf()
    nondet f = Set(0, 0, 0, 1, -1, 2, -3, 5).oneOf()
    nondet k = 0.to(6).oneOf()
    nondet t = 0.to(9999).oneOf()
    nondet m = 0.to(REVS.length() - 1).oneOf()
    nondet w = 0.to(3).oneOf()
    val g = { a: a, b: b, c: if (k % 2 == 0) 0 else c, d: d, e: e, f: if (k % 2 == 0) 0 else f, k: k, t: t, m: REVS[m], w: w }
    all { pick' = g, req' = lat(g) }
  }
}
