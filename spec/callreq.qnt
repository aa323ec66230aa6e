// Concrete requests, sound and unsound: a pick is a tuple of small integers, `concrete` turns it into a request whose
// numbers are exact.
module callreq {
  import calls.* from "calls"
  // s: solver; k: kind of request; mask: what is made wrong; a..f: 0..999999; m: revolutions; w: flags and form of the call
  type CallPick = { s: int, k: int, mask: int, a: int, b: int, c: int, d: int, e: int, f: int, m: int, w: int, it: int }
  pure val CALL0: CallPick = { s: 0, k: 0, mask: 0, a: 1, b: 1, c: 1, d: 1, e: 1, f: 1, m: 0, w: 0, it: 35 }
  // a component: of up to 3, 20, 26 or 52 bits, or null
  pure def comp(a: int, b: int, style: int): int = {
    val sg = if (a % 2 == 0) 1 else -1
    sg * (if (style == 0) 1 + a / 2 % 7 else if (style == 1) 1 + a else if (style == 2) 1 + a * 61 + b % 61 else 1 + (a * 1000000 + b) * 3317 + b % 3317)
  }
  pure def zeroed(v: List[int], z: int): List[int] =          // some null components, never all
    if (z == 1) [v[0], v[1], 0] else if (z == 2) [0, v[1], v[2]] else if (z == 3) [v[0], 0, v[2]] else if (z == 4) [v[0], 0, 0]
    else if (z == 5) [0, v[1], 0] else if (z == 6) [0, 0, v[2]] else v
  pure def triple(a: int, b: int, c: int, z: int): List[int] = {
    val st = (a / 7) % 4
    zeroed([comp(a, b, st), comp(b, c, st), comp(c, a, st)], z) }
  pure def bit(m: int, k: int): bool = m / 2^k % 2 == 1
  pure def redim(v: List[int], n: int): List[int] = range(0, n).foldl([], (l, k) => l.append(if (k < v.length()) v[k] else v[0]))
  pure def scaleBits(a: int): int = if ((a / 7) % 4 == 0) 3 else if ((a / 7) % 4 == 1) 20 else if ((a / 7) % 4 == 2) 26 else 52
  // mask: 0 mu, 1 dimension, 2 null vector, 3 equal vectors, 4 tof, 5 revolutions negative, 6 several revolutions, 7 collinear,
  // 8 exact 180 degrees instead of 0, 9 extreme time of flight, 10 extreme ratio of distances, 11 nearly collinear, 12 tiny scales,
  // 13 something is not a finite number
  pure def concrete(g: CallPick): Req = {
    val z = if (g.e % 3 == 0) g.e / 3 % 8 else 0
    val u1 = triple(g.a, g.b, g.c, z)
    val sb = scaleBits(g.a)
    val len = g.f % 41 - 10 + (if (bit(g.mask, 12)) -60 else 0)         // exponent of the distances
    val e1 = len - sb
    val e10 = if (bit(g.mask, 10)) (if (g.d % 2 == 0) 1 else -1) * (4 + g.d % 15) else 0
    val k = if (bit(g.mask, 8)) -(1 + g.d % 6) else 2 + g.d % 6
    val u2 = if (bit(g.mask, 7)) range(0, 3).foldl([], (l, j) => l.append(k * u1[j]))
             else if (bit(g.mask, 11)) [k * u1[0] * 2^(6 + g.e % 16) + 1 + g.f % 5, k * u1[1] * 2^(6 + g.e % 16) - g.f % 7, k * u1[2] * 2^(6 + g.e % 16) + 3]
             else { val sc = scaleBits(g.d)  triple(g.d, g.e, g.f, if (g.b % 3 == 0) g.b / 3 % 8 else 0) }
    val e2 = if (bit(g.mask, 7)) e1 + e10 + (if (g.e % 4 == 0) 0 else g.e % 5 - 2) else if (bit(g.mask, 11)) e1 + e10 - 6 - g.e % 16 else len + e10 - scaleBits(g.d)
    val r1a = if (bit(g.mask, 2) and g.d % 4 != 0) [0, 0, 0] else u1
    val r2a = if (bit(g.mask, 2) and g.d % 3 == 0) [0, 0, 0] else u2
    val twin = bit(g.mask, 3)
    val me = g.b % 100 - 40
    val mu = { n: if (bit(g.mask, 0)) (if (g.a % 3 == 0) 0 else -(1 + g.a % 1000)) else 1 + g.a % 1000, e: if (bit(g.mask, 12)) -200 else me }
    // a natural time: (length^3 / mu)^(1/2) within a factor of 2^(+-3)
    val te = (3 * len - mu.e - 10) / 2 - 3 + g.c % 5 + (if (bit(g.mask, 9)) (if (g.c % 2 == 0) 1 else -1) * (5 + g.c % 22) else 0)
    val tof = { n: if (bit(g.mask, 4)) (if (g.b % 3 == 0) 0 else -(1 + g.b % 50)) else 1 + g.b % 50, e: te }
    val r2b = if (twin) r1a else r2a
    val e2b = if (twin) e1 else e2
    val d1 = if (bit(g.mask, 1) and g.d % 3 != 0) [0, 1, 2, 4, 5, 6][g.c % 6] else 3
    val d2 = if (bit(g.mask, 1) and g.d % 3 != 1) [0, 1, 2, 4, 5, 6][g.b % 6] else 3
    { solver: g.s, mu: mu, tof: tof, r1: if (d1 == 3) r1a else redim(r1a, d1), e1: e1, r2: if (d2 == 3) r2b else redim(r2b, d2), e2: e2b,
      revs: if (bit(g.mask, 5)) -(1 + g.m) else if (bit(g.mask, 6)) 1 + g.m else 0,
      pro: g.w % 2 == 0, low: g.w / 2 % 2 == 0, full: g.w / 4 % 2 == 1, maxiter: g.it, how: g.w / 8 % 3, odd: if (bit(g.mask, 13)) 1 + (g.c + g.f) % 18 else 0 }
  }
}
