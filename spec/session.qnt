// A session: a caller owns arrays, changes them, calls solvers with them, holds on to the results and overwrites those too.
// What a call is asked is the value of its arguments when it is made, nothing else.
module session {
  // op 0 call, 1 a new array in a slot, 2 change a component in place, 3 overwrite the results of an earlier call, 4 an earlier request
  // again, from one of several threads, 5 end of the session
  type Ev = { op: int, solver: int, i: int, j: int, x: int, mu: int, tof: int, revs: int, flags: int, settings: int, k: int }
  type Ask = { solver: int, r1: List[int], r2: List[int], mu: int, tof: int, revs: int, flags: int, settings: int }
  type World = { heap: List[List[int]], asked: List[Ask] }
  pure val SLOTS = 6
  pure val WORLD0: World = { heap: [[1, 0, 0], [0, 1, 0], [1, 1, 0], [-1, 2, 0], [2, 1, 1], [0, -2, 1]], asked: [] }
  pure def ask(w: World, e: Ev): Ask =
    { solver: e.solver, r1: w.heap[e.i], r2: w.heap[e.j], mu: e.mu, tof: e.tof, revs: e.revs, flags: e.flags, settings: e.settings }
  pure def happen(w: World, e: Ev): World =
    if (e.op == 0) { ...w, asked: w.asked.append(ask(w, e)) }
    else if (e.op == 1) { ...w, heap: w.heap.replaceAt(e.i, [e.x, e.mu, e.tof]) }
    else if (e.op == 2) { ...w, heap: w.heap.replaceAt(e.i, w.heap[e.i].replaceAt(e.j, e.x)) }
    else w
  // one number for a request
  pure def keyOf(a: Ask): int =
    List(a.solver, a.r1[0], a.r1[1], a.r1[2], a.r2[0], a.r2[1], a.r2[2], a.mu, a.tof, a.revs, a.flags, a.settings).foldl(0, (n, v) => n * 1024 + v + 512)
}
