// What the generated section has to contain, given the entries of the benchmark reports.
module report {
  // times in nanoseconds; c: name of the case, t: title of its scenario; mean: distinct for all entries
  type Entry = { g: int, c: int, t: int, m: int, pro: bool, low: bool, s: int, med: int, mean: int, iqr: int, rounds: int, file: int }
  // a row as printed: times and speed-up in tenths
  type Row = { g: int, t: int, rank: int, s: int, m: int, pro: bool, low: bool, med: int, mean: int, iqr: int, speed: int, rounds: int }
  pure def tenths(ns: int): int = (ns + 50) / 100
  pure def key(e: Entry): (int, int, int, bool, bool) = (e.g, e.c, e.m, e.pro, e.low)
  pure def rowOf(e: Entry): { g: int, t: int, s: int, m: int, pro: bool, low: bool, med: int, mean: int, iqr: int, rounds: int } =
    { g: e.g, t: e.t, s: e.s, m: e.m, pro: e.pro, low: e.low, med: tenths(e.med), mean: tenths(e.mean), iqr: tenths(e.iqr), rounds: e.rounds }
  pure def plain(r: Row): { g: int, t: int, s: int, m: int, pro: bool, low: bool, med: int, mean: int, iqr: int, rounds: int } =
    { g: r.g, t: r.t, s: r.s, m: r.m, pro: r.pro, low: r.low, med: r.med, mean: r.mean, iqr: r.iqr, rounds: r.rounds }
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def before(a: Row, ma: int, b: Row, mb: int): bool =
    if (a.m != b.m) a.m < b.m else if (a.pro != b.pro) b2i(a.pro) < b2i(b.pro) else if (a.low != b.low) b2i(a.low) < b2i(b.low) else ma <= mb
  pure def entryOf(es: List[Entry], r: Row): int = es.foldl((-1, 0), (s, e) => (if (tenths(e.mean) == r.mean) s._2 else s._1, s._2 + 1))._1
  // the entries of the rows, in order; every row is one entry, and every entry one row
  type Pair = { r: Row, e: Entry }
  pure def none(l: List[Pair], bad: (Pair) => bool): bool = l.foldl(true, (ok, p) => ok and not(bad(p)))
  // entries of the same case
  pure def peers(l: List[Pair], p: Pair): List[Pair] = l.select(x => key(x.e) == key(p.e))
  pure def sorted(l: List[Pair]): bool =
    l.foldl({ ok: true, last: l[0] }, (s, p) =>
      { ok: s.ok and (s.last.r.g != p.r.g or s.last.r.t != p.r.t or before(s.last.r, s.last.e.med, p.r, p.e.med)), last: p }).ok
  pure def rankWrong(l: List[Pair], p: Pair): bool = {
    val c = peers(l, p).foldl({ faster: 0, ties: 0, same: 0 }, (s, x) =>
      { faster: if (x.e.med < p.e.med) s.faster + 1 else s.faster, ties: if (x.e.med == p.e.med) s.ties + 1 else s.ties, same: if (x.r.rank == p.r.rank) s.same + 1 else s.same })
    p.r.rank < c.faster + 1 or p.r.rank > c.faster + c.ties or c.same > 1 }
  pure def speedWrong(l: List[Pair], p: Pair): bool = {
    val slowest = peers(l, p).foldl(0, (s, x) => if (x.e.med > s) x.e.med else s)
    val d = 10 * slowest - p.r.speed * p.e.med
    2000000 * (if (d < 0) -d else d) > 1000002 * p.e.med }
  pure def paired(l: List[Pair], n: int): str =
    if (l.length() < n) "an entry is not listed"
    else if (not(none(l, p => p.r.g != p.e.g))) "listed under another group"
    else if (not(none(l, p => p.r.t != p.e.t))) "listed under another scenario"
    else if (not(none(l, p => plain(p.r) != rowOf(p.e)))) "a row does not show its entry"
    else if (not(sorted(l))) "rows out of order"
    else if (not(none(l, p => rankWrong(l, p)))) "wrong rank"
    else if (not(none(l, p => speedWrong(l, p)))) "wrong speed-up"
    else ""
  pure def tableClause(es: List[Entry], rs: List[Row]): str =
    if (rs.foldl(false, (b, r) => b or entryOf(es, r) < 0)) "a row which is no entry"
    else if (rs.length() > es.length() or rs.foldl(Set(), (s, r) => s.union(Set(r.mean))).size() < rs.length()) "an entry is listed more than once"
    else paired(rs.foldl([], (l, r) => l.append({ r: r, e: es[entryOf(es, r)] })), es.length())
  // the header: whose commit, processor, interpreter and system it names, as numbers of reports (-1: none of them, -2: more than one)
  type Header = { commit: int, cpu: int, python: int, system: int }
  pure def firstReport(es: List[Entry]): int = es.foldl(es[0].file, (m, e) => if (e.file < m) e.file else m)
  pure def headerClause(es: List[Entry], h: Header): str = {
    val k = firstReport(es)
    if (h.commit != k) "not the commit of the first report" else if (h.cpu != k or h.python != k or h.system != k) "not the machine of the first report" else "" }
}
