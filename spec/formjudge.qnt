// Trace machine of forms: the outcomes of one request in all the forms it was made in.
module formjudge {
  import fixed.* from "fixed"
  import tape.* from "tape"
  import accuracy.* from "accuracy"
  import verdicts.* from "verdicts"
  import lattice.* from "lattice"
  import forms.* from "forms"
  const TAPE: List[int]
  type Fail = { rec: int, obs: int, clause: str }
  // code: of the form, -1 the plain one; mode: 1 compiled; like: the observation it is compared with; kind, msg: exception
  type Seen = { code: int, solver: int, settings: int, mode: int, status: int, iters: int, like: int, kind: int, msg: int, bits: int, fin: bool, v1: V3, v2: V3 }
  var i: int
  var fails: List[Fail]
  var met: int -> int        // comparisons by kind (0 bit for bit, 1 up to rounding), status and solver
  var worst: int -> int      // greatest difference up to rounding by mode and solver, in units of 1e-18
  pure val HEADW = 6
  pure val OBSWORDS = 12
  pure def pickOf(rec: int): LatPick = { a: slot(rec, 0), b: slot(rec, 1), c: slot(rec, 2), d: slot(rec, 3), e: slot(rec, 4), f: slot(rec, 5),
    k: slot(rec, 6), t: slot(rec, 7), m: slot(rec, 8), w: slot(rec, 9) }
  pure def seenAt(rec: int, j: int): Seen = {
    val r = (rec / 2^(64 * (HEADW + OBSWORDS * j))) % 2^(64 * OBSWORDS)
    val fin = finite3(r, 6) and finite3(r, 9)
    { code: slot(r, 0), solver: slot(r, 1), settings: slot(r, 2), mode: slot(r, 3), status: slot(r, 4), iters: slot(r, 5), like: slot(r, 6), kind: word(r, 4), msg: word(r, 5),
      bits: r / 2^384, fin: fin, v1: if (fin) vec3(r, 6) else vec(0, 0, 0), v2: if (fin) vec3(r, 9) else vec(0, 0, 0) } }
  pure def form(o: Seen): Form = if (o.code < 0) PLAIN else formOf(o.code)
  pure def apart(a: Seen, b: Seen): int =
    imax(vmax(vsub(a.v1, b.v1)), vmax(vsub(a.v2, b.v2))) * ONE / imax(ONE / 10^30, imax(vmax(a.v1), vmax(a.v2)))
  pure def allowed(q: Lat, o: Seen): int = {
    val b = 2 * bound(o.solver, o.settings, q.par, q.men)
    // (Der's solver takes another iteration when the first one does not settle, which the rounding decides)
    if (q.near) imax(b, ONE / 100) else imin(b, ONE / (if (o.solver == 5 and o.settings != TIGHT) 10^3 else if (Set(2, 3, 7).contains(o.solver)) 10^5 else 10^6)) }
  pure def exact(o: Seen, p: Seen): bool = o.mode == p.mode and sameArithmetic(form(o))
  pure def clause(q: Lat, o: Seen, p: Seen): str =
    if (o.status > 2) outcomeName(o.status)
    else if (o.status != p.status or o.kind != p.kind) (if (o.mode != p.mode) "compiled and interpreted outcomes differ" else "another outcome in another form")
    else if (exact(o, p)) (if (o.msg != p.msg or o.iters != p.iters or o.bits != p.bits) "another outcome in another form" else "")
    else if (o.status != 0) ""
    else if (not(o.fin) or not(p.fin)) (if (o.fin == p.fin) "" else "velocities are not finite")
    else if (apart(o, p) > allowed(q, o)) (if (o.mode != p.mode) "compiled and interpreted answers differ" else "another answer in another form")
    else ""
  pure def bump(m: int -> int, k: int, v: int): int -> int =
    if (m.keys().contains(k)) (if (m.get(k) < v) m.set(k, v) else m) else m.put(k, v)
  pure def more(m: int -> int, k: int): int -> int = if (m.keys().contains(k)) m.set(k, m.get(k) + 1) else m.put(k, 1)
  action init = all { i' = 0, fails' = [], met' = Map(), worst' = Map() }
  action step = all {
    i < TAPE.length(),
    val rec = TAPE[i]
    val q = lat(pickOf(rec))
    val os = range(0, slot(rec, 11)).foldl([], (l, j) => l.append(seenAt(rec, j)))
    all {
      i' = i + 1,
      met' = os.foldl(met, (m, o) => if (o.like < 0) m else more(m, ((if (exact(o, os[o.like])) 0 else 1) * 10 + o.status) * 100 + o.solver)),
      worst' = os.foldl(worst, (m, o) => if (o.like < 0 or o.status != 0 or os[o.like].status != 0 or not(o.fin) or not(os[o.like].fin) or exact(o, os[o.like]) or q.near) m
                 else bump(m, (if (o.mode != os[o.like].mode) 100 else 0) + o.solver, apart(o, os[o.like]) / 10^42)),
      fails' = range(0, os.length()).foldl(fails, (l, j) => {
        val c = if (os[j].like < 0) "" else clause(q, os[j], os[os[j].like])
        if (c == "") l else l.append({ rec: i, obs: j, clause: c }) }) } }
}
