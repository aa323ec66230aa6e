// Trace machine of sessions: the outcome of a call is that of the same request made first thing in a process of its own, bit for bit.
module sessjudge {
  import tape.* from "tape"
  import session.* from "session"
  const REFS: List[int]      // requests made alone: key in words 0 and 1 (128 bits), outcome in the words after
  const TAPE: List[int]
  type Fail = { rec: int, clause: str }
  var i: int
  var world: World
  var memo: int -> int
  var fails: List[Fail]
  var met: int -> int        // calls by solver and status; repeats of a request under 1000, threads under 2000
  pure val KEYBITS = 2^128
  pure def statusOf(o: int): int = o % 256
  pure def evOf(r: int): Ev = { op: slot(r, 0), solver: slot(r, 1), i: slot(r, 2), j: slot(r, 3), x: slot(r, 4), mu: slot(r, 5), tof: slot(r, 6), revs: slot(r, 7),
                                flags: slot(r, 8), settings: slot(r, 9), k: slot(r, 10) }
  pure def sideEffects(f: int): List[str] =
    range(0, 8).foldl([], (l, b) => if (f / 2^b % 2 == 1) l.append([
      "an argument was modified", "a result shares memory with an argument", "a result shares memory with an earlier result", "the two velocities share memory",
      "something was printed", "global state was changed", "a result changed after it was returned", "an argument was kept or changed hands"][b]) else l)
  pure def more(m: int -> int, k: int): int -> int = if (m.keys().contains(k)) m.set(k, m.get(k) + 1) else m.put(k, 1)
  action init = all { i' = 0, world' = WORLD0, memo' = REFS.foldl(Map(), (m, r) => m.put(r % KEYBITS, r / KEYBITS)), fails' = [], met' = Map() }
  action step = all {
    i < TAPE.length(),
    val r = TAPE[i]
    val e = evOf(r)
    val flags = word(r, 6)
    val o = r / 2^448
    val w = happen(world, e)
    val isCall = e.op == 0 or e.op == 4
    val a = if (e.op == 0) ask(world, e) else if (e.op == 4) world.asked[e.k] else ask(WORLD0, e)
    val k = keyOf(a)
    val cs = (if (not(isCall)) []
              else if (not(memo.keys().contains(k))) ["(no reference)"]
              else if (statusOf(o) == 4) ["did not end"]
              else if (memo.get(k) != o) [if (e.op == 4) "another outcome from several threads" else "the outcome depends on the calls before"]
              else []).concat(sideEffects(flags))
    all {
      i' = i + 1, world' = w, memo' = memo,
      met' = if (isCall) more(met, (if (e.op == 4) 2000 else 0) + a.solver * 10 + statusOf(o)) else more(met, 9000 + e.op),
      fails' = cs.foldl(fails, (l, c) => l.append({ rec: i, clause: c })) }
  }
}
