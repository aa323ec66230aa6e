"""Plumbing shared by the checks: quint runs, tapes, worker processes, verdicts, evidence."""
import concurrent.futures as cf
import fractions, json, os, queue, select, shutil, subprocess, sys, tempfile, threading, time
from ops_names import NAMES

sys.set_int_max_str_digits(0)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LAMBERTHUB_REPO", "/repo")
PY = "/opt/venv/bin/python"
ONE = 10**60
CPUS = min(8, os.cpu_count() or 8)
CALL_LIMIT = 45.0        # seconds without an answer after which a call counts as not ending
FIRST_LIMIT = 200.0      # the same when the call may have to be compiled first


class Machinery(Exception):
    """Something of ours failed: not a verdict about the library."""


# ---- scratch ---------------------------------------------------------------------------------------------
class Scratch:
    def __init__(self, prop):
        self.dir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".qnt"):
                shutil.copy(os.path.join(VERIF, "spec", f), self.dir)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---- quint -----------------------------------------------------------------------------------------------
def unitf(v):
    """ITF value to python."""
    if isinstance(v, dict):
        if "#bigint" in v: return int(v["#bigint"])
        if "#map" in v: return {unitf(k) if not isinstance(k, list) else tuple(unitf(x) for x in k): unitf(x) for k, x in v["#map"]}
        if "#set" in v: return [unitf(x) for x in v["#set"]]
        if "#tup" in v: return tuple(unitf(x) for x in v["#tup"])
        return {k: unitf(x) for k, x in v.items() if k != "#meta"}
    if isinstance(v, list): return [unitf(x) for x in v]
    return v


def quint_run(sc, name, text, main, steps, seed, invariants=(), timeout=800, mbt=False, step=None):
    """Runs one trace of a machine and returns its states (python values)."""
    qf = sc.path(f"{name}.qnt"); itf = sc.path(f"{name}.itf.json")
    with open(qf, "w") as f: f.write(text)
    cmd = ["quint", "run", "--backend", "typescript", "--max-samples", "1", "--n-traces", "1", "--max-steps", str(steps), "--main", main,
           "--seed", hex(seed), "--out-itf", itf, "--verbosity", "1"]
    if step: cmd += ["--step", step, "--init", "start"]
    if mbt: cmd.append("--mbt")
    if invariants: cmd += ["--invariants", *invariants]
    cmd.insert(2, f"{name}.qnt")
    p = subprocess.run(cmd, cwd=sc.dir, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0 or not os.path.exists(itf):
        raise Machinery(f"quint run {name}: exit {p.returncode}\n{p.stdout[-3000:]}\n{p.stderr[-3000:]}")
    with open(itf) as f: data = json.load(f)
    return [{k.split('::')[-1]: v for k, v in unitf(s).items()} for s in data["states"]]


def parallel(fn, items, n=CPUS):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


# ---- numbers ---------------------------------------------------------------------------------------------
def to_float(n):
    """Nearest double of a fixed-point number of the specification."""
    return n / ONE          # true division of integers is correctly rounded


def hexf(x):
    return float(x).hex()


def hexlit(words64):
    n = 0
    for i, w in enumerate(words64): n |= (w & (2**64 - 1)) << (64 * i)
    return hex(n)


def pack_slots(slots):
    """32-bit slots, biased by 2^31, two per word."""
    s = [x + 2**31 for x in slots]
    if len(s) % 2: s.append(2**31)
    return [s[i] | (s[i + 1] << 32) for i in range(0, len(s), 2)]


def bits(x):
    import struct
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def unbits(w):
    import struct
    return struct.unpack("<d", struct.pack("<Q", w))[0]


# ---- worker processes ---------------------------------------------------------------------------------
class Worker:
    def __init__(self, env, err):
        self.p = subprocess.Popen([PY, os.path.join(VERIF, "driver", "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=err, env=env, cwd=env["SCRATCH"])
        self.buf = b""
        if self.read(300) is None:
            raise Machinery("a worker did not start")

    def read(self, limit):
        end = time.monotonic() + limit
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0: return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r: return None
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d: return {"died": True}
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def ask(self, req, limit):
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n"); self.p.stdin.flush()
        except BrokenPipeError:
            return {"died": True}
        return self.read(limit)

    def kill(self):
        try: self.p.kill()
        except OSError: pass
        self.p.wait()


def worker_env(sc, compiled, tag):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("NUMBA", "PYTHON"))}
    env.update(PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", SCRATCH=sc.dir, REPO=REPO,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
    if compiled:
        cache = sc.path(f"numba-{tag}"); os.makedirs(cache, exist_ok=True)
        env["NUMBA_CACHE_DIR"] = cache
    else:
        env["NUMBA_DISABLE_JIT"] = "1"
    return env


def execute(sc, reqs, compiled=False, workers=CPUS, limit=None, by=None, cache=None):
    """Runs the requests, returns their outcomes in order. A call that does not end, or kills its process, has status 4.

    `by`: key of a request; requests with the same key go to the same process, in order (compiled code is then compiled
    by few processes, and histories stay together)."""
    if not reqs: return []
    for i, r in enumerate(reqs): r["id"] = i
    out = [None] * len(reqs)
    jobs = queue.Queue()
    if by is None and compiled: by = lambda r: r["solver"]
    if by is None:
        n = max(1, min(40, len(reqs) // (workers * 4) or 1))
        for i in range(0, len(reqs), n): jobs.put(reqs[i:i + n])
    else:
        groups = {}
        for r in reqs: groups.setdefault(by(r), []).append(r)
        for g in sorted(groups.values(), key=lambda g: -len(g)): jobs.put(g)
    errf = open(sc.path("workers.err"), "ab")
    fails = []
    total = [0]

    def loop(k):
        w = None
        try:
            while True:
                try: batch = jobs.get_nowait()
                except queue.Empty: break
                hangs, fresh = 0, True
                for r in batch:
                    if hangs >= 2 or total[0] >= 10:      # evidence enough: do not wait for all of them
                        out[r["id"]] = dict(s=4, t="skipped", m="not run: earlier calls did not end", id=r["id"], wall=0.0, skipped=True)
                        continue
                    if w is None: w = Worker(worker_env(sc, compiled, cache or k), errf); fresh = True
                    lim = limit or (FIRST_LIMIT if compiled and fresh else CALL_LIMIT)
                    a = w.ask(r, lim)
                    fresh = False
                    if a is None or a.get("died"):
                        w.kill(); w = None
                        if a is None: hangs += 1; total[0] += 1
                        a = dict(s=4, t="timeout" if a is None else "died", m="the call did not end" if a is None else "the process died",
                                 id=r["id"], wall=lim)
                    out[r["id"]] = a
        except Exception as e:   # noqa
            fails.append(e)
        finally:
            if w is not None: w.kill()

    ts = [threading.Thread(target=loop, args=(k,)) for k in range(min(workers, jobs.qsize()))]
    for t in ts: t.start()
    for t in ts: t.join()
    errf.close()
    if fails: raise Machinery(f"worker: {fails[0]!r}\n" + open(sc.path("workers.err"), errors="replace").read()[-3000:])
    return out


# ---- problems ------------------------------------------------------------------------------------------
SLOTS = ["k", "a", "b", "c", "d", "e", "f", "o", "qa", "qb", "qc", "qd", "u", "m"]


ORIENT = (0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 8, 9)


def generate(sc, classes, count, seed, maxrev=1, units=(0,), orient=ORIENT, tag="gen"):
    """Problems from the generator machine: `count` steps spread over the processors."""
    per = -(-count // CPUS)

    def one(k):
        text = (f"module {tag}{k} {{ import genrun(CLASSES=[{','.join(map(str, classes))}], FIRST={k * per}, MAXREV={maxrev}, "
                f"UNITSET=[{','.join(map(str, units))}], ORIENT=[{','.join(map(str, orient))}]).* from \"genrun\" }}\n")
        st = quint_run(sc, f"{tag}{k}", text, f"{tag}{k}", per, seed * 1000 + k, ["sound"])
        return [dict(pick=s["pick"], prob=s["prob"]) for s in st[1:]]
    probs = [q for part in parallel(one, range(CPUS)) for q in part]
    return [q for q in probs if q["prob"]["ok"]], len(probs)


def request(q, solver, **opts):
    """A call of a solver for a generated problem."""
    p = q["prob"]
    o = dict(M=p["revs"], is_prograde=p["pro"], is_low_path=p["low"])
    o.update(opts)
    v = lambda a: [hexf(to_float(a[k])) for k in "xyz"]
    return dict(op="solve", solver=NAMES[solver], mu=hexf(to_float(p["mu"])), r1=v(p["r1"]), r2=v(p["r2"]),
                tof=hexf(to_float(p["tof"])), opts=o)


def pack_obs(solver, cfg, o, msg=0):
    w = o.get("w") or [0] * 6
    return [solver | cfg << 8 | o["s"] << 16 | msg << 24, (o.get("n", -1) if o["s"] == 0 else -1) + 2**31, *w]


def pack_problem(q, obs):
    """A record of the tape: the pick, the number of observations, the observations."""
    w = pack_slots([q["pick"][s] for s in SLOTS] + [len(obs), 0])
    for o in obs: w += o
    return hexlit(w)


def judge(sc, tapes, module, consts="", seed=1, tag="judge", batch=0):
    """Runs the trace machine over the records; returns the last state of every part, with the offset of its records.

    `batch`: the machine takes that many records in a step (its TAPE is a list of lists)."""
    parts = [list(range(k, len(tapes), CPUS)) for k in range(min(CPUS, len(tapes)))]

    def one(k):
        idx = parts[k]
        rows = [tapes[i] for i in idx]
        if batch: rows = ["[" + ",\n".join(rows[a:a + batch]) + "]" for a in range(0, len(rows), batch)]
        text = (f"module {tag}{k} {{\n  pure val DATA = [\n" + ",\n".join(rows) + "]\n" +
                f"  import {module}(TAPE=DATA{consts}).* from \"{module}\"\n}}\n")
        st = quint_run(sc, f"{tag}{k}", text, f"{tag}{k}", len(rows), seed)
        if st[-1]["i"] != len(rows): raise Machinery(f"{tag}{k}: the trace machine stopped at record {st[-1]['i']} of {len(rows)}")
        return st[-1], idx
    return parallel(one, range(len(parts)))
