// The README whose performance section a script regenerates from benchmark reports: a document is a list of pieces.
// The reports at hand have a version (0: there are none); the section holds the text generated from one version.
module readme {
  pure val TITLE = 1            // "## Performance comparison" and the empty line after it
  pure val START = 2            // the marker the section starts with
  pure val END = 3              // the marker it ends with
  pure val NL = 4               // a line end
  pure val BLANK = 5            // spaces
  pure val CRLF = 6             // a line end of Windows
  pure val BODY = 100           // 100 + v: what is between the markers for version v
  pure val TEXT = 10            // 10 + k: a piece of text somebody wrote
  const VERSIONS: int
  const PIECES: int
  const LIMIT: int              // pieces of a document

  var doc: List[int]
  var reports: int
  var did: str
  var outcome: str              // "": fine, else the exception
  var ghost: List[int]          // the text somebody wrote, as it has to be

  pure def has(d: List[int], p: int): bool = d.indices().exists(i => d[i] == p)
  pure def at(d: List[int], p: int): int = d.indices().fold(-1, (s, i) => if (d[i] == p and (s < 0 or i < s)) i else s)
  pure def prefix(d: List[int], n: int): List[int] = d.slice(0, n)
  pure def suffix(d: List[int], n: int): List[int] = d.slice(n, d.length())
  pure def isBlank(p: int): bool = p == NL or p == CRLF or p == BLANK
  pure def isEnd(p: int): bool = p == NL or p == CRLF
  pure def stripped(d: List[int]): List[int] = {
    val last = d.indices().fold(-1, (s, i) => if (not(isBlank(d[i])) and i > s) i else s)
    prefix(d, last + 1) }
  pure def section(v: int): List[int] = [START, BODY + v, END, NL]
  // the document after an update with reports of version v
  pure def updated(d: List[int], v: int): List[int] =
    if (has(d, START) and has(d, END)) {
      val later = suffix(d, at(d, END) + 1)
      prefix(d, at(d, START)).concat(section(v)).concat(if (later.length() > 0 and isEnd(later[0])) suffix(later, 1) else later)
    } else stripped(d).concat([NL, NL, TITLE]).concat(section(v))
  pure def texts(d: List[int]): List[int] = d.foldl([], (l, p) => if (p > TEXT and p < BODY) l.append(p) else l)
  pure def count(d: List[int], p: int): int = d.foldl(0, (n, x) => if (x == p) n + 1 else n)

  action init = {
    nondet k = 1.to(PIECES).oneOf()
    nondet shape = 0.to(6).oneOf()
    val d = if (shape == 0) [] else if (shape == 1) [TEXT + k] else if (shape == 2) [TEXT + k, NL, BLANK, NL] else if (shape == 3) [TEXT + k, NL, TITLE, START, BODY, END, NL]
            else if (shape == 4) [TITLE, START, BODY, END, NL, TEXT + k]
            else if (shape == 5) [TEXT + k, CRLF, BLANK, CRLF] else [TEXT + k, CRLF, TITLE, START, BODY, END, CRLF, TEXT + k]
    all { doc' = d, ghost' = texts(d), reports' = 0, did' = "init", outcome' = "" } }
  action measure = {
    nondet v = 1.to(VERSIONS).oneOf()
    all { reports' = v, did' = "measure", outcome' = "", doc' = doc, ghost' = ghost } }
  action forget = all { reports > 0, reports' = 0, did' = "forget", outcome' = "", doc' = doc, ghost' = ghost }
  action update = all { reports > 0, doc' = updated(doc, reports), did' = "update", outcome' = "", reports' = reports, ghost' = ghost }
  action refuse = all { reports == 0, doc' = doc, did' = "update", outcome' = "FileNotFoundError", reports' = reports, ghost' = ghost }
  // somebody writes something before or after the section
  action write = {
    nondet k = 1.to(PIECES).oneOf()
    nondet where = 0.to(3).oneOf()
    nondet b = 0.to(7).oneOf()         // now and then only an empty line or an indentation
    val i = if (where == 0) 0
            else if (where == 1 and has(doc, TITLE)) at(doc, TITLE)
            else if (where == 2 and has(doc, END)) at(doc, END) + 1
            else doc.length()
    val d = prefix(doc, i).append(if (b == 0) NL else if (b == 1) BLANK else if (b == 2) CRLF else TEXT + k).concat(suffix(doc, i))
    all { doc.length() < LIMIT, doc' = d, ghost' = texts(d), did' = "write", outcome' = "", reports' = reports } }
  // somebody takes the section away
  action remove = all {
    has(doc, TITLE), has(doc, END),
    val d = prefix(doc, at(doc, TITLE)).concat(suffix(doc, at(doc, END) + 1))
    all { doc' = d, ghost' = texts(d), did' = "remove", outcome' = "", reports' = reports } }
  action step = any { measure, measure, forget, update, update, refuse, write, write, remove }

  // blanks count as well: what precedes the section and what follows it is what was there, but for the line end after the
  // marker and for the blanks at the end of a document a section is added to
  pure def before(d: List[int]): List[int] = prefix(d, at(d, START))
  pure def after(d: List[int]): List[int] = {
    val l = suffix(d, at(d, END) + 1)
    if (l.length() > 0 and isEnd(l[0])) suffix(l, 1) else l }
  val aroundKept = (has(doc, START) and reports > 0) implies (before(updated(doc, reports)) == before(doc) and after(updated(doc, reports)) == after(doc))
  val oneSection = count(doc, START) == count(doc, END) and count(doc, START) <= 1
  val lastVersion = (did == "update" and outcome == "") implies (has(doc, BODY + reports) and count(doc, START) == 1 and at(doc, END) == at(doc, START) + 2)
  val nothingLost = texts(doc) == ghost
  val idempotent = (did == "update" and outcome == "") implies updated(doc, reports) == doc
  val inv = oneSection and aroundKept and lastVersion and nothingLost and idempotent
}
