// The symmetries of the two-body problem: the group generated by rotations about the polar axis, the mirror images about the
// equatorial plane and about a plane through the polar axis, changes of the units of length and time, and the motion backwards.
module symmetry {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"

  type Sym = Turn({ n: int, d: int }) | MirrorEquator | MirrorMeridian | Rescale({ len: int, tim: int }) | Backwards | Identity
  pure val FACTORS: List[int] = [ONE / 1000, ONE / 7, ONE / 2, 3 * ONE, 1000 * ONE, 149597870700 * ONE / 10^6, 10^7 * ONE, ONE]
  // a word of the group from an integer below 10^9
  pure def letter(v: int): Sym = {
    val p = v / 8
    if (v % 8 == 0 or v % 8 == 1) Turn({ n: p % 10 - 3, d: 1 + p / 10 })
    else if (v % 8 == 2) MirrorEquator
    else if (v % 8 == 3) MirrorMeridian
    else if (v % 8 == 4 or v % 8 == 5) Rescale({ len: FACTORS[p % 8], tim: FACTORS[(p / 8) % 8] })
    else if (v % 8 == 6) Backwards
    else Identity
  }
  pure def wordOf(w: int): List[Sym] = [letter(w % 1000), letter((w / 1000) % 1000), letter((w / 1000000) % 1000)]

  pure def turned(n: int, d: int, v: V3): V3 = {
    val k = n * n + d * d
    vec(((n * n - d * d) * v.x - 2 * n * d * v.y) / k, ((n * n - d * d) * v.y + 2 * n * d * v.x) / k, v.z) }
  // what a symmetry does to a problem and its solution
  pure def act(s: Sym, q: Prob): Prob = match s {
    | Turn(t) => { ...q, r1: turned(t.n, t.d, q.r1), r2: turned(t.n, t.d, q.r2), v1: turned(t.n, t.d, q.v1), v2: turned(t.n, t.d, q.v2),
                   c1: turned(t.n, t.d, q.c1), c2: turned(t.n, t.d, q.c2), w1: turned(t.n, t.d, q.w1) }
    | MirrorEquator =>
        { ...q, r1: vec(q.r1.x, q.r1.y, -q.r1.z), r2: vec(q.r2.x, q.r2.y, -q.r2.z), v1: vec(q.v1.x, q.v1.y, -q.v1.z), v2: vec(q.v2.x, q.v2.y, -q.v2.z),
          c1: vec(q.c1.x, q.c1.y, -q.c1.z), c2: vec(q.c2.x, q.c2.y, -q.c2.z), w1: vec(q.w1.x, q.w1.y, -q.w1.z) }
    | MirrorMeridian =>
        { ...q, r1: vec(q.r1.x, -q.r1.y, q.r1.z), r2: vec(q.r2.x, -q.r2.y, q.r2.z), v1: vec(q.v1.x, -q.v1.y, q.v1.z), v2: vec(q.v2.x, -q.v2.y, q.v2.z),
          c1: vec(q.c1.x, -q.c1.y, q.c1.z), c2: vec(q.c2.x, -q.c2.y, q.c2.z), w1: vec(q.w1.x, -q.w1.y, q.w1.z), hz: -q.hz, pro: not(q.pro) }
    | Rescale(u) => { val sp = u.len * ONE / u.tim
        { ...q, mu: fmul(q.mu, fmul(u.len, fmul(u.len, u.len))) * ONE / fmul(u.tim, u.tim), len: fmul(q.len, u.len), tim: fmul(q.tim, u.tim),
          r1: vscale(u.len, q.r1), r2: vscale(u.len, q.r2), tof: fmul(u.tim, q.tof), v1: vscale(sp, q.v1), v2: vscale(sp, q.v2) } }
    | Backwards => { val k = -(q.tim * ONE / q.len)
        { ...q, r1: q.r2, r2: q.r1, v1: vscale(-ONE, q.v2), v2: vscale(-ONE, q.v1), c1: q.c2, c2: q.c1, w1: vscale(k, q.v2), hz: -q.hz, pro: not(q.pro) } }
    | Identity => q
  }
  // what it does to an answer
  type Ans = { v1: V3, v2: V3 }
  pure def carry(s: Sym, a: Ans): Ans = match s {
    | Turn(t) => { v1: turned(t.n, t.d, a.v1), v2: turned(t.n, t.d, a.v2) }
    | MirrorEquator => { v1: vec(a.v1.x, a.v1.y, -a.v1.z), v2: vec(a.v2.x, a.v2.y, -a.v2.z) }
    | MirrorMeridian => { v1: vec(a.v1.x, -a.v1.y, a.v1.z), v2: vec(a.v2.x, -a.v2.y, a.v2.z) }
    | Rescale(u) => { v1: vscale(u.len * ONE / u.tim, a.v1), v2: vscale(u.len * ONE / u.tim, a.v2) }
    | Backwards => { v1: vscale(-ONE, a.v2), v2: vscale(-ONE, a.v1) }
    | Identity => a
  }
  // (numbers beyond those the fixed point of the specification resolves are not used)
  pure def image(w: int, q: Prob): Prob = {
    val p = wordOf(w).foldl(q, (p, s) => act(s, p))
    if (not(q.ok) or p.mu < ONE / 10^30 or p.len < ONE / 10^12 or p.tim < ONE / 10^12 or p.tof < ONE / 10^15) bad(q.cls) else p }
  pure def carried(w: int, a: Ans): Ans = wordOf(w).foldl(a, (b, s) => carry(s, b))
  // what a word does to the arithmetic: 0 it keeps the distances, 1 it changes the units too, 2 it exchanges the positions
  pure def kindOf(w: int): int = wordOf(w).foldl(0, (b, s) => imax(b, match s { | Rescale(_) => 1 | Backwards => 2 | _ => 0 }))
}
