// Generator machine of sessions: most calls repeat an earlier one or differ from it in one argument.
module sessgen {
  import session.* from "session"
  const SOLVERS: List[int]
  const REVS: List[int]
  var ev: Ev
  var world: World
  var calls: List[Ev]
  var held: int          // results held
  pure val FIRST: Ev = { op: 5, solver: 0, i: 0, j: 1, x: 0, mu: 0, tof: 4, revs: 0, flags: 3, settings: 0, k: 0 }
  action init = all { ev' = FIRST, world' = WORLD0, calls' = [], held' = 0 }
  pure def vary(v: int, p: Ev, f: Ev): Ev =
    if (v == 0) f
    else if (v == 1) { ...p, mu: f.mu } else if (v == 2 or v == 3) { ...p, tof: f.tof } else if (v == 4) { ...p, revs: f.revs }
    else if (v == 5) { ...p, flags: if (p.flags % 2 == 0) p.flags + 1 else p.flags - 1 }                    // sense of motion
    else if (v == 6) { ...p, flags: if (p.flags / 2 % 2 == 0) p.flags + 2 else p.flags - 2 }                // path
    else if (v == 7) { ...p, flags: if (p.flags / 4 % 2 == 0) p.flags + 4 else p.flags - 4 }                // full output
    else if (v == 8) { ...p, settings: f.settings } else if (v == 9) { ...p, i: f.i } else if (v == 10) { ...p, j: f.j }
    else if (v == 11) { ...p, solver: f.solver } else if (v == 12) { ...p, i: p.j, j: p.i } else p
  action step = {
    nondet z = 0.to(99).oneOf()
    nondet s = 0.to(SOLVERS.length() - 1).oneOf()
    nondet i = 0.to(5).oneOf()
    nondet j = 0.to(5).oneOf()
    nondet x = (-3).to(3).oneOf()
    nondet y = (-3).to(3).oneOf()
    nondet c = Set(0, 0, 0, 1, -2).oneOf()
    nondet mu = Set(0, 0, 0, 0, 1, 2, 3).oneOf()
    nondet tof = 0.to(15).oneOf()
    nondet m = 0.to(REVS.length() - 1).oneOf()
    nondet fl = 0.to(7).oneOf()
    nondet st = 0.to(5).oneOf()
    nondet b = 0.to(9999).oneOf()
    nondet v = 0.to(17).oneOf()
    val fresh = { op: 0, solver: SOLVERS[s], i: i, j: j, x: 0, mu: mu, tof: tof, revs: REVS[m], flags: fl, settings: st, k: 0 }
    val n = calls.length()
    // one of the last twelve calls, or any
    val p = if (n == 0) fresh else calls[if (b % 4 == 0) b / 4 % n else n - 1 - (b / 4 % (if (n < 12) n else 12))]
    val e = if (z < 74) vary(v, p, fresh)
            else if (z < 82) { ...FIRST, op: 1, i: i, x: x, mu: y, tof: c }
            else if (z < 91) { ...FIRST, op: 2, i: i, j: j % 3, x: x }
            else if (n == 0) fresh
            else { ...FIRST, op: 3, k: b % n, x: x }
    all {
      ev' = e, world' = happen(world, e),
      calls' = if (e.op == 0) calls.append(e) else calls, held' = held }
  }
}
