"""C16: the benchmark section of the README."""
import hashlib, re, subprocess
from lib import *
from model import tlc

GROUPS = [("zero-rev-nominal", "Zero-revolution nominal cases"), ("zero-rev-general", "Zero-revolution general cases"), ("zero-rev-hyperbolic", "Zero-revolution hyperbolic cases"),
          ("multi-rev-m1", "One-revolution branch cases"), ("multi-rev-hard", "Near-minimum-energy multi-revolution cases"), ("robust-zero-rev", "Near-tangent robustness cases"),
          ("interplanetary-legs", "Interplanetary Legs")]
CASES = [("battin-book", "Battin book"), ("curtiss-book", "Curtiss book"), ("vallado-book", "Vallado book"), ("gmat-prograde", "GMAT hyperbolic"), ("gmat-retrograde", "GMAT hyperbolic"),
         ("der-article-i-prograde-low", "Der article I"), ("der-article-i-retrograde-high", "Der article I"), ("der-article-ii-prograde-high", "Der article II"),
         ("der-article-ii-retrograde-high", "Der article II"), ("prograde-high", "Der article II"), ("prograde-low", "Der article II"), ("retrograde-high", "Der article II"),
         ("retrograde-low", "Der article II"), ("m1-prograde-high", "Near-minimum-energy"), ("m1-prograde-low", "Near-minimum-energy"), ("m2-prograde-high", "Near-minimum-energy"),
         ("m2-prograde-low", "Near-minimum-energy"), ("near-tangent-prograde-high", "Near tangent"), ("earth-mars-leg", "Earth Mars Leg")]
TITLES = sorted({t for _, t in CASES})
START, END, TITLE = "<!-- performance-comparison:start -->", "<!-- performance-comparison:end -->", "## Performance comparison"
PIECES = ["# LambertHub", "A paragraph, with a | pipe and \\1 \\g<0> backslashes.", "| Rank | Solver |\n|---|---|\n| 1 | `x` |", "### Zero-revolution nominal cases", "Ünïcode µs — text.\n\n```bash\n$ ls\n```", "tail", "Lines of\r\nanother system.", "an old\rMac"]


def reports_of(entries, version):
    files = {}
    for e in entries:
        files.setdefault(e["file"], []).append(dict(group=GROUPS[e["g"]][0], name=f"test[{e['s']}]",
            params=dict(solver=NAMES[e["s"]] if e["s"] % 5 == 4 else f"<function {NAMES[e['s']]} at 0x7f{e['mean']:010x}>",
                        case=dict(name=CASES[e["c"]][0], M=e["m"], is_prograde=e["pro"], is_low_path=e["low"], mu=1.0, r1="[1 0 0]", r2="[0 1 0]", tof=1.0, regime=GROUPS[e["g"]][0])),
            stats=dict(median=e["med"] * 1e-9, mean=e["mean"] * 1e-9, iqr=e["iqr"] * 1e-9, rounds=e["rounds"], min=e["med"] * 1e-10, max=e["med"] * 1e-8)))
    return {f"report-{k}.json": dict(machine_info=dict(cpu=dict(brand_raw=MACHINE["cpu"](k, version)), python_version=MACHINE["python"](k, version), system=MACHINE["system"](k, version)),
                                     commit_info=dict(id=MACHINE["commit"](k, version)), benchmarks=b) for k, b in files.items()}


MACHINE = dict(commit=lambda k, v: hashlib.sha1(f"{k} {v}".encode()).hexdigest(), cpu=lambda k, v: f"CPU {v}-{k} @ 2.{k} GHz", python=lambda k, v: f"3.1{k}.{v}", system=lambda k, v: ["Linux", "Darwin", "Windows", "FreeBSD"][k])


def header_of(section, version):
    """Whose commit and machine the header names: numbers of reports, -1 nobody's, -2 several."""
    head = section.split("###")[0]; h = []
    for part in ("commit", "cpu", "python", "system"):
        named = [k for k in range(4) if (MACHINE[part](k, version)[:12] if part == "commit" else MACHINE[part](k, version)) in head]
        h.append(-1 if not named else -2 if len(named) > 1 else named[0])
    return h


def lay(d, reports):
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d): os.unlink(os.path.join(d, f))
    for name, r in reports.items():
        with open(os.path.join(d, name), "w") as f: json.dump(r, f)
    with open(os.path.join(d, "notes.txt"), "w") as f: f.write("not a report")


ROW = re.compile(r"^\| *(\d+) *\| *`?([A-Za-z0-9_]+)`? *\| *(-?\d+) *\| *(\w+) *\| *(\w+) *\| *([\d.]+) *\| *([\d.]+) *\| *([\d.]+) *\| *([\d.]+)x *\| *(\d+) *\|\s*$")
tenth = lambda t: int(round(float(t) * 10))


def rows_of(section):
    """Rows of a generated section, with the group and the scenario they are listed under; None if a line cannot be read."""
    g = t = -1; rows = []
    gt = {title: k for k, (_, title) in enumerate(GROUPS)}
    for line in section.splitlines():
        if line.startswith("#### "): t = TITLES.index(line[5:].strip()) if line[5:].strip() in TITLES else -2
        elif line.startswith("### "): g, t = gt.get(line[4:].strip(), -2), -1
        elif line.startswith("|") and not line.startswith("| Rank") and not line.startswith("|-"):
            m = ROW.match(line)
            if not m: return None
            a = m.groups()
            rows.append(dict(g=g, t=t, rank=int(a[0]), s=NAMES.index(a[1]) if a[1] in NAMES else -1, m=int(a[2]), pro=a[3].lower() in ("yes", "true", "prograde"), low=a[4].lower() == "low",
                             med=tenth(a[5]), mean=tenth(a[6]), iqr=tenth(a[7]), speed=tenth(a[8]), rounds=int(a[9])))
    return rows


ENTRY = ["g", "c", "t", "m", "pro", "low", "s", "med", "mean", "iqr", "rounds", "file"]
ROWS = ["g", "t", "rank", "s", "m", "pro", "low", "med", "mean", "iqr", "speed", "rounds"]


undated = lambda s: re.sub(r"(?m)^- Generated: \d{4}-\d\d-\d\d \d\d:\d\d UTC$", "- Generated: then", s)


def render(doc, bodies):
    one = {1: TITLE + "\n\n", 2: START, 3: END, 4: "\n", 5: "  ", 6: "\r\n"}
    return "".join(one[p] if p in one else PIECES[p - 11] if p < 100 else bodies[p - 100] for p in doc)


class Runner:
    def __init__(self, sc):
        self.p = subprocess.Popen([PY, os.path.join(VERIF, "driver", "report_runner.py"), REPO, sc.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  env=dict({k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1"))

    def __call__(self, op, d, readme):
        try:
            self.p.stdin.write(json.dumps(dict(op=op, dir=d, readme=readme)) + "\n"); self.p.stdin.flush()
        except BrokenPipeError: pass
        line = self.p.stdout.readline()
        if not line: raise Machinery("the report runner ended: " + self.p.stderr.read()[-2000:])
        return json.loads(line)


def run(ctx):
    sc = ctx.sc
    model = tlc(sc, ctx.pick("readmemc", "readmemc2"), file="readmemc", timeout=1500)
    ctx.say(f"README model: {model[0]} states, the invariants hold")
    n = ctx.pick(400, 4000)

    def gen(k):
        text = (f"module rg{k} {{ import reportgen(TITLES=[{','.join(str(TITLES.index(t)) for _, t in CASES)}], GROUPS={len(GROUPS)}, SOLVERS=14).* from \"reportgen\" }}\n")
        return [s["entries"] for s in quint_run(sc, f"rg{k}", text, f"rg{k}", n // 4, ctx.seed * 77 + k)[1:]]
    sets = [e for part in parallel(gen, range(4)) for e in part]
    run_ = Runner(sc)
    try:
        # tables
        d = sc.path("bench"); readme = sc.path("README.md")
        tapes, kept = [], []
        for v, es in enumerate(sets):
            reports = reports_of(es, v); lay(d, reports)
            o = run_("section", d, readme)
            rows = rows_of(o["value"]) if not o["error"] else None
            what = None
            if o["error"]: what = f"raised {o['error']}"
            elif rows is None: what = "a row that cannot be read"
            elif o["value"].count(START) != 1 or o["value"].count(END) != 1: what = "not one section"
            if what: ctx.fail(what, who="build_section", what=str(o)[:500], entries=es)
            else: tapes.append(hexlit(pack_slots([len(es), len(rows)] + header_of(o["value"], v) + [int(e[k]) for e in es for k in ENTRY] + [int(r[k]) for r in rows for k in ROWS]))); kept.append((es, o["value"]))
        for st, idx in judge(sc, tapes, "reportjudge", ", BATCH=25", batch=25):
            for f in st["fails"]:
                es, text = kept[idx[f["rec"]]]
                ctx.fail(f["clause"], who="build_section", what=text[-400:], entries=es, outcomes=[text])
        ctx.say(f"{len(sets)} sets of reports, {sum(map(len, sets))} entries, {len(ctx.fails)} rejected")
        # documents
        m = ctx.pick(1600, 9000)

        def play(k):
            text = f"module rp{k} {{ import readmegen.* from \"readmemc\" }}\n"
            return quint_run(sc, f"rp{k}", text, f"rp{k}", m // 4, ctx.seed * 99 + k, step="play")
        behaviours = parallel(play, range(4))
        versions = [[e for e in sets if len(e) > 3][k * 7 % 50] for k in range(1, 7)]
        updates = refused = 0
        for b, states in enumerate(behaviours):
            bodies = {0: "\n\nold\n\n| 1 | 2 |\n\n"}
            hist = []
            for j, s in enumerate(states):
                hist = [s["did"]] if s["did"] == "init" else hist + [s["did"] + (f" {s['reports']}" if s["did"] == "measure" else "")]
                if s["did"] in ("init", "write", "remove"):
                    with open(readme, "w", encoding="utf-8", newline="") as f: f.write(render(s["doc"], bodies))
                    if s["did"] == "init": lay(d, {})
                elif s["did"] == "measure": lay(d, reports_of(versions[s["reports"] - 1], s["reports"]))
                elif s["did"] == "forget": lay(d, {})
                else:
                    v = s["reports"]
                    with open(readme, encoding="utf-8", newline="") as f: was = f.read()
                    sec = run_("section", d, readme)
                    o = run_("command" if j % 6 == 0 else "update", d, readme)
                    with open(readme, encoding="utf-8", newline="") as f: now = f.read()
                    if o["error"] != s["outcome"]:
                        ctx.fail(f"{'raised ' + o['error'] if o['error'] else 'did not raise'} where {s['outcome'] or 'success'} is due", who="update", what=str(hist[-8:]), history=hist, outcomes=[o])
                    if v:
                        updates += 1
                        bodies[v] = sec["value"].split(START, 1)[1].split(END, 1)[0] if not sec["error"] else ""
                    else: refused += 1
                    want = render(s["doc"], bodies) if v else was
                    if undated(now) != undated(want):
                        ctx.fail("the README is not what the history demands", who="update_readme", what=str(hist[-8:]), history=hist, before=was, after=now, expected=want)
                        with open(readme, "w", encoding="utf-8", newline="") as f: f.write(want)
                    else:
                        bodies[v] = now.split(START, 1)[1].split(END, 1)[0] if v else ""
        ctx.say(f"{updates} updates and {refused} refusals replayed, {len(ctx.fails)} rejected")
    finally:
        run_.p.kill(); run_.p.wait()
    ctx.level = "model_checking"
    ctx.coverage.update(states=model[0], transitions=model[1], traces_validated_against_impl=len(sets) + updates + refused,
        samples=[dict(entries=sets[3]), dict(history=[s["did"] for s in behaviours[0][:12]])], sets_of_reports=len(sets), entries=sum(map(len, sets)), updates=updates, refusals=refused,
        rule="the README machine (documents of up to 6 pieces, two versions) is explored completely; its behaviours with six versions are replayed, a sixth of the updates by running the script; "
             "the tables of generated sets of reports are judged entry by entry")
