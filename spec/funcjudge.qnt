// Trace machine of the auxiliary functions: a batch of recorded calls per step, judged on the very numbers it was given.
module funcjudge {
  import fixed.* from "fixed"
  import tape.* from "tape"
  import funcs.* from "funcs"
  import laws.* from "laws"
  const TAPE: List[List[int]]
  const BATCH: int
  type Fail = { rec: int, clause: str }
  var i: int
  var fails: List[Fail]
  var met: int -> int
  // word 0: function, status, number of inputs and of outputs; then the bits of the inputs and of the outputs
  pure def decode(rec: int): Call = {
    val h = word(rec, 0)
    val n = (h / 65536) % 256
    val m = (h / 16777216) % 256
    val fin = 0.to(m - 1).forall(k => finiteBits(word(rec, 1 + n + k)))
    { f: h % 256, status: (h / 256) % 256, x: range(0, n).foldl([], (l, k) => l.append(real(word(rec, 1 + k)))),
      y: range(0, m).foldl([], (l, k) => l.append(if (fin or finiteBits(word(rec, 1 + n + k))) real(word(rec, 1 + n + k)) else 0)), fin: fin } }
  action init = all { i' = 0, fails' = [], met' = Map() }
  action step = all {
    i < TAPE.length(),
    val r = TAPE[i].foldl({ j: i * BATCH, fails: fails, met: met }, (s, rec) => {
      val c = decode(rec)
      val v = if (c.f >= GEOM) judgeLaw(c) else judgeCall(c)
      val k = c.f * 10 + c.status
      { j: s.j + 1, fails: if (v == "") s.fails else s.fails.append({ rec: s.j, clause: v }),
        met: if (s.met.keys().contains(k)) s.met.set(k, s.met.get(k) + 1) else s.met.put(k, 1) } })
    all { i' = i + 1, met' = r.met, fails' = r.fails }
  }
}
