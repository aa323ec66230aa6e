// The forms one and the same request can take: how its vectors and numbers are represented, and how it is passed.
module forms {
  import fixed.* from "fixed"
  import lattice.* from "lattice"
  // v1, v2: 0 plain array of doubles, 1 of 64-bit integers, 2 every other element of a longer array, 3 read-only, 4 reversed view, 5 column of a
  // matrix, 6 of 32-bit integers; mu, tof: 0 Python real, 1 Python integer, 2 numpy real, 3 numpy integer; revs: 0 Python, 1 numpy; flags: 1 if truth values, tolerances and number of iterations are numpy's;
  // how: number of positional arguments; omit: 1 if arguments which have the values of their defaults are left out
  type Form = { v1: int, v2: int, mu: int, tof: int, revs: int, flags: int, how: int, omit: int }
  pure val PLAIN: Form = { v1: 0, v2: 0, mu: 0, tof: 0, revs: 0, flags: 0, how: 4, omit: 0 }
  pure def formOf(n: int): Form = {
    // most forms change one or two things
    val m = n / 10 % 13
    val f = { v1: n / 1000 % 7, v2: n / 7000 % 7, mu: n / 49000 % 4, tof: n / 196000 % 4, revs: n / 784000 % 2, flags: n / 1568000 % 2, how: 4 + n / 3 % 8, omit: n / 13 % 2 }
    if (m == 0) { ...PLAIN, v1: f.v1, v2: f.v1 } else if (m == 1) { ...PLAIN, v1: f.v1 } else if (m == 2) { ...PLAIN, v2: f.v2 }
    else if (m == 3) { ...PLAIN, mu: f.mu } else if (m == 4) { ...PLAIN, tof: f.tof } else if (m == 5) { ...PLAIN, revs: 1 }
    else if (m == 6) { ...PLAIN, how: f.how } else if (m == 7) { ...PLAIN, omit: 1, how: f.how } else if (m == 8) { ...PLAIN, v1: 1, v2: 1, mu: 1, tof: 1 }
    else if (m == 9) { ...PLAIN, how: 0, omit: f.omit } else if (m == 10) { ...PLAIN, v1: f.v1, v2: f.v2, how: f.how }
    else if (m == 11) { ...PLAIN, flags: 1, how: f.how } else f }
  // the arithmetic is the same, operation by operation
  pure def sameArithmetic(f: Form): bool = Set(0, 3).contains(f.v1) and Set(0, 3).contains(f.v2) and Set(0, 2).contains(f.mu) and Set(0, 2).contains(f.tof)
  // what is made wrong with a request, if anything
  pure val SPOILS = 8
  type Ask = { q: Lat, spoil: int }
  pure def spoiled(q: Lat, s: int): Lat =
    if (s == 1) { ...q, mun: -q.mun } else if (s == 2) { ...q, tofn: -q.tofn } else if (s == 3) { ...q, r2: q.r1 }
    else if (s == 4) { ...q, revs: -1 } else if (s == 5) { ...q, r1: [0, 0, 0] } else if (s == 6) { ...q, r2: [-2 * q.r1[0], -2 * q.r1[1], -2 * q.r1[2]] }
    else if (s == 7) { ...q, revs: 1, tofn: if (q.tofe < 0) 2^(-q.tofe) else 1 }      // far too short for a revolution, or out of reach
    else q
  // a time of flight which is an integer where the scale lets it be one
  pure def rounded(q: Lat): Lat = if (q.tofe >= -3) { ...q, tofn: (if (q.tofn < 8) 8 else q.tofn) / 8 * 8 } else q
}
// Generator machine of requests and of the forms they are made in.
module formgen {
  import fixed.* from "fixed"
  import lattice.* from "lattice"
  import forms.* from "forms"
  const R0: List[int]
  import latgen(REVS=R0) as g from "latgen"
  var spoil: int
  var codes: List[int]
  var asked: Lat
  var made: List[Form]
  action start = all { g::init, spoil' = 0, codes' = [], asked' = lat(LAT0), made' = [] }
  action pair = {
    nondet s = 0.to(23).oneOf()
    nondet a = 0.to(3135999).oneOf()
    nondet b = 0.to(3135999).oneOf()
    nondet c = 0.to(3135999).oneOf()
    nondet d = 0.to(3135999).oneOf()
    nondet e = 0.to(3135999).oneOf()
    nondet f = 0.to(3135999).oneOf()
    val cs = [a, b, c, d, e, f]
    all { g::step, spoil' = if (s < SPOILS) s else 0, codes' = cs, made' = cs.foldl([], (l, n) => l.append(formOf(n))), asked' = spoiled(rounded(g::req), spoil) } }
}
