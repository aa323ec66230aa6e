// Generator machine of benchmark reports: a set of entries that grows, or starts again.
module reportgen {
  import report.* from "report"
  const TITLES: List[int]     // title of the scenario of each case name
  const GROUPS: int
  const SOLVERS: int
  var n: int
  var entries: List[Entry]
  action init = all { n' = 0, entries' = [] }
  action step = {
    nondet g = 0.to(GROUPS - 1).oneOf()
    nondet c = 0.to(TITLES.length() - 1).oneOf()
    nondet m = Set(0, 0, 1, 2, 10).oneOf()
    nondet flags = 0.to(3).oneOf()
    nondet s = 0.to(SOLVERS - 1).oneOf()
    nondet med = 1.to(1000000).oneOf()
    nondet scale = Set(1, 1, 1, 10, 1000).oneOf()
    nondet iqr = 0.to(99999).oneOf()
    nondet rounds = 5.to(200000).oneOf()
    nondet file = 0.to(3).oneOf()
    nondet act = 0.to(19).oneOf()
    // most entries belong to a case which is there already, some tie with another
    val like = if (entries.length() > 0 and act % 4 != 0) entries[med % entries.length()] else
      { g: g, c: c, t: TITLES[c], m: m, pro: flags % 2 == 1, low: flags / 2 == 1, s: s, med: 0, mean: 0, iqr: 0, rounds: 0, file: file }
    // (a tie, or a fraction of a microsecond apart)
    val t0 = if (entries.length() == 0) med * scale else if (act == 7) like.med else if (act == 15 or act == 18) like.med + med % 700 - 350 else med * scale
    val t = if (t0 % 100 == 50) t0 + 1 else t0
    val q = if (iqr % 100 == 50) iqr + 1 else iqr
    val e = { ...like, s: s, med: if (t <= 0) 1 else t, mean: (100000 + n) * 100 + iqr % 40, iqr: q, rounds: rounds,
              pro: if (act % 4 == 2) flags % 2 == 1 else like.pro, low: if (act % 4 == 3) flags / 2 == 1 else like.low }
    val old = if (act == 11 or entries.length() > 45) [] else entries
    all { n' = n + 1, entries' = if (old.indices().exists(i => key(old[i]) == key(e) and old[i].s == e.s)) old else old.append(e) } }
}
