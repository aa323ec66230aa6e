// Trace machine of the generated tables.
module reportjudge {
  import fixed.* from "fixed"
  import tape.* from "tape"
  import report.* from "report"
  const TAPE: List[List[int]]
  const BATCH: int
  // a record: numbers of entries and rows, whose the four parts of the header are, then twelve slots for each
  pure def entryAt(r: int, o: int): Entry = {
    val w = r / 2^(32 * o)
    { g: slot(w, 0), c: slot(w, 1), t: slot(w, 2), m: slot(w, 3), pro: slot(w, 4) == 1, low: slot(w, 5) == 1, s: slot(w, 6), med: slot(w, 7), mean: slot(w, 8),
      iqr: slot(w, 9), rounds: slot(w, 10), file: slot(w, 11) } }
  pure def rowAt(r: int, o: int): Row = {
    val w = r / 2^(32 * o)
    { g: slot(w, 0), t: slot(w, 1), rank: slot(w, 2), s: slot(w, 3), m: slot(w, 4), pro: slot(w, 5) == 1, low: slot(w, 6) == 1, med: slot(w, 7), mean: slot(w, 8),
      iqr: slot(w, 9), speed: slot(w, 10), rounds: slot(w, 11) } }
  var i: int
  var fails: List[{ rec: int, clause: str }]
  action init = all { i' = 0, fails' = [] }
  action step = all {
    i < TAPE.length(),
    val r = TAPE[i].foldl({ j: i * BATCH, fails: fails }, (s, t) => {
      val ne = slot(t, 0)
      val es = range(0, ne).foldl([], (l, k) => l.append(entryAt(t, 6 + 12 * k)))
      val h = headerClause(es, { commit: slot(t, 2), cpu: slot(t, 3), python: slot(t, 4), system: slot(t, 5) })
      val v = if (h != "") h else tableClause(es, range(ne, ne + slot(t, 1)).foldl([], (l, k) => l.append(rowAt(t, 6 + 12 * k))))
      { j: s.j + 1, fails: if (v == "") s.fails else s.fails.append({ rec: s.j, clause: v }) } })
    all { i' = i + 1, fails' = r.fails } }
}
