// The hub as it introduces itself: which solvers it lists where, and how each of them is called.  A trace machine: one step for each
// solver found in the package, with what it was seen to do.
module roster {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"
  import hub.* from "hub"
  // kind of a parameter: 1 positional or keyword; num: 1 an integer, 2 a real, 3 True or False, 0 none of these; val: its value (reals: in units of 1e-15)
  type Param = { name: str, kind: int, has: bool, num: int, value: int }
  // direct, multi: requests of each kind the solver was called with and those it answered
  type Seen = { name: str, inAll: int, zero: int, multi: int, robust: int, nonrobust: int, params: List[Param],
                dAsked: int, dGot: int, mAsked: int, mGot: int, mRefused: int }
  const SEEN: List[Seen]
  const LISTED: List[str]       // the names in ALL_SOLVERS, in order
  type Fail = { rec: int, clause: str }
  var i: int
  var fails: List[Fail]
  pure val PARAMS = ["mu", "r1", "r2", "tof", "M", "is_prograde", "is_low_path", "maxiter", "atol", "rtol", "full_output"]
  pure def defaultOf(s: int, k: int, p: Param): bool =
    if (k < 4) not(p.has)
    else p.has and (
      if (k == 4) p.num == 1 and p.value == 0
      else if (k == 5 or k == 6) p.num == 3 and p.value == 1
      else if (k == 7) p.num == 1 and p.value > 0
      else if (k == 8) p.num == 2 and p.value == (if (s == 13) 10^3 else 10^10)
      else if (k == 9) p.num == 2 and p.value == (if (s == 13) 10^3 else 10^8)
      else p.num == 3 and p.value == 0)
  pure def idOf(n: str): int = range(0, N).foldl(-1, (a, k) => if (NAMES[k] == n) k else a)
  pure def clauses(x: Seen): List[str] = {
    val s = idOf(x.name)
    [ if (s < 0) "a solver the hub does not have" else "",
      if (x.inAll != 1) "not listed once among all solvers" else "",
      if (x.params.length() != 11) "not the parameters every solver takes" else "",
      if (x.params.length() == 11 and range(0, 11).foldl(false, (b, k) => b or x.params[k].name != PARAMS[k] or x.params[k].kind != 1)) "not the parameters every solver takes" else "",
      if (x.params.length() == 11 and range(0, 11).foldl(false, (b, k) => b or not(defaultOf(s, k, x.params[k])))) "not the defaults every solver has" else "",
      if (x.zero > 1 or x.multi > 1 or x.robust > 1 or x.nonrobust > 1) "listed twice" else "",
      if (ZEROREV.contains(s) and x.zero != 1) "missing among the direct solvers" else "",
      if ((x.multi == 1) != MULTI.contains(s)) "wrong place with regard to the multi-revolution solvers" else "",
      if ((x.robust == 1) != ROBUST.contains(s)) "wrong place with regard to the robust solvers" else "",
      if ((x.nonrobust == 1) != NONROBUST.contains(s)) "wrong place with regard to the non-robust solvers" else "",
      // the lists say what the solvers do
      if (x.robust == 1 and x.nonrobust == 1) "robust and not" else "",
      if (x.zero == 1 and x.dGot == 0) "listed as a direct solver but answers no direct transfer" else "",
      if (x.multi == 1 and x.mGot == 0) "listed as a multi-revolution solver but answers none" else "",
      if (x.multi == 0 and x.mRefused != x.mAsked) "not listed as a multi-revolution solver but does not refuse them" else "" ]
  }
  action init = all { i' = 0, fails' = if (LISTED.length() != N or NAMES.foldl(false, (b, n) => b or LISTED.foldl(0, (c, m) => if (m == n) c + 1 else c) != 1))
                                           [{ rec: -1, clause: "the list of all solvers is not the solvers of the hub" }] else [] }
  action step = all {
    i < SEEN.length(),
    i' = i + 1,
    fails' = clauses(SEEN[i]).foldl(fails, (l, c) => if (c == "") l else l.append({ rec: i, clause: c })) }
}
