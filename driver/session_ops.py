"""Sessions: a caller with arrays of their own, calls in any order, results held and overwritten, threads (C09)."""
import hashlib, json, os, random, sys, threading, warnings
import numpy as np
import lamberthub
from ops import NAMES, bits, outcome, velocities

HEAP0 = [[1, 0, 0], [0, 1, 0], [1, 1, 0], [-1, 2, 0], [2, 1, 1], [0, -2, 1]]
GRID = [0.0, 1.1, 2.3, 3.7]      # what the specification counts with integers, in numbers whose sums are rounded
MUS = [1.0, 2.0, 0.5, -1.0]
TOFS = [0.125, 0.5, 0.75, 1.0, 1.5, 2.0, 2.125, 3.0, 4.0, 6.0, 6.5, 9.0, 14.0, 20.0, 33.0, -2.0]
SETTINGS = [{}, dict(maxiter=300, atol=1e-11, rtol=1e-11), dict(maxiter=300), dict(maxiter=2), dict(maxiter=300, atol=1e-2, rtol=1e-2), dict(maxiter=1)]


def real(n):
    return GRID[n] if n >= 0 else -GRID[-n]


def array(v):
    return np.array([real(n) for n in v])


def counted(a):
    """The integers an array stands for."""
    return [int(np.sign(x)) * min(range(4), key=lambda k: abs(GRID[k] - abs(x))) for x in a]


def arguments(a):
    fl = a["flags"]
    kw = dict(M=a["revs"], is_prograde=bool(fl & 1), is_low_path=bool(fl & 2), **SETTINGS[a["settings"]])
    if fl & 4: kw["full_output"] = True
    return MUS[a["mu"]], TOFS[a["tof"]], kw


def digest(st, ty, msg, res, full):
    """Outcome in eight words: status and iterations, exception, velocities."""
    if st: return [st, int.from_bytes(hashlib.sha256(f"{ty}: {msg}".encode()).digest()[:8], "little")] + [0] * 6
    d = velocities(res, full)
    if d is None: return [5] + [0] * 7
    return [(d[1] + 2) << 8, 0] + d[0]


def state():
    """What a caller can see of the state of the process."""
    r = np.random.get_state(legacy=False)
    return (repr(np.geterr()), repr(np.get_printoptions()), hashlib.sha256(r["state"]["key"].tobytes()).hexdigest() if "key" in r["state"] else repr(r), r["state"].get("pos"),
            hash(random.getstate()), tuple(tuple(f.__name__ for f in getattr(lamberthub, n)) for n in
            ("ALL_SOLVERS", "ZERO_REV_SOLVERS", "MULTI_REV_SOLVERS", "ROBUST_SOLVERS", "NON_ROBUST_SOLVERS")),
            sys.getrecursionlimit(), tuple(map(repr, warnings.filters)), os.getcwd(), threading.active_count(), hash(frozenset(os.environ.items())),
            repr(np.geterrcall()), id(sys.stdout), id(sys.stderr), tuple(id(getattr(lamberthub, n)) for n in NAMES))


class Quiet:
    """Sees whether anything is printed."""
    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush()
        self.f = os.memfd_create("out"); self.keep = [os.dup(1), os.dup(2)]; self.n = 0
        os.dup2(self.f, 1); os.dup2(self.f, 2)
        return self

    def printed(self):
        sys.stdout.flush(); sys.stderr.flush()
        n = os.fstat(self.f).st_size
        new, self.n = n != self.n, n
        return new

    def __exit__(self, *a):
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(self.keep[0], 1); os.dup2(self.keep[1], 2)
        for f in (self.f, *self.keep): os.close(f)


def session(req):
    """Plays the events; for each its outcome and flags (what the specification calls side effects)."""
    # an unusual but legitimate state of the process, which calls have to leave alone
    np.seterr(divide="warn", over="ignore", under="ignore", invalid="warn") if req["odd"] else np.seterr(all="ignore")
    np.set_printoptions(precision=5 if req["odd"] else 11)
    heap = [array(v) for v in HEAP0]
    asks, held, res, first = [], [], [], []
    # (the first call of a process compiles, which may leave marks that are not the library's)
    with Quiet() as quiet:
        before = state()
        for e in req["events"]:
            f, o = 0, [0] * 8
            if e["op"] == 0:
                a, b = heap[e["i"]], heap[e["j"]]
                mu, tof, kw = arguments(e)
                full = kw.get("full_output", False)
                seen = (a.tobytes(), b.tobytes(), a.flags.writeable, b.flags.writeable)
                asks.append(dict(e, r1=counted(a), r2=counted(b)))
                st, ty, msg, r = outcome(lambda: getattr(lamberthub, NAMES[e["solver"]])(mu, a, b, tof, **kw))
                o = digest(st, ty, msg, r, full); first.append(st)
                if seen != (a.tobytes(), b.tobytes(), a.flags.writeable, b.flags.writeable): f |= 1
                vs = [v for v in r[:2] if isinstance(v, np.ndarray)] if not st and isinstance(r, tuple) else []
                if any(np.shares_memory(v, w) for v in vs for w in heap): f |= 2
                if any(np.shares_memory(v, w) for v in vs for h in held for w in h[0]): f |= 4
                if len(vs) == 2 and np.shares_memory(*vs): f |= 8
                if any(not v.flags.writeable for v in vs): f |= 128
                held.append((vs, [v.tobytes() for v in vs]))
            elif e["op"] == 1: heap[e["i"]] = array([e["x"], e["mu"], e["tof"]])
            elif e["op"] == 2: heap[e["i"]][e["j"]] = real(e["x"])
            elif e["op"] == 3:
                for v in held[e["k"]][0]:
                    if v.flags.writeable: v[:] = e["x"] * 1e30
                held[e["k"]] = (held[e["k"]][0], [v.tobytes() for v in held[e["k"]][0]])
            if quiet.printed(): f |= 16
            after = state()
            if after != before: f |= 32; before = after
            res.append([f, o])
        # the same requests from several threads: arrays of their own, and arrays they share
        n, plan = req["threads"], []
        if n and asks:
            # all threads call the same solver at a time, mostly with requests which have an answer
            shared, ends = {}, {}
            names = sorted({a["solver"] for a in asks})
            rng = random.Random(req["seed"])
            plan = []
            for s in names:
                of = [k for k, a in enumerate(asks) if a["solver"] == s]
                good = [k for k in of if not first[k]] or of
                plan.append([[rng.choice(good if rng.random() < 0.8 else of) for _ in range(n)] for _ in range(6)])
            old = sys.getswitchinterval(); sys.setswitchinterval(2e-6)
            gate = threading.Barrier(6)

            def work(t):
                for part in plan:
                    gate.wait()
                    for q, k in enumerate(part[t]):
                        a = asks[k]
                        key = lambda v: tuple(v) + (t,) if q % 2 else tuple(v)
                        r1 = shared.setdefault(key(a["r1"]), array(a["r1"])); r2 = shared.setdefault(key(a["r2"]), array(a["r2"]))
                        mu, tof, kw = arguments(a)
                        st, ty, msg, r = outcome(lambda: getattr(lamberthub, NAMES[a["solver"]])(mu, r1, r2, tof, **kw))
                        ends.setdefault((k, tuple(digest(st, ty, msg, r, kw.get("full_output", False)))), None)
            ts = [threading.Thread(target=work, args=(t,)) for t in range(6)]
            for t in ts: t.start()
            for t in ts: t.join()
            sys.setswitchinterval(old)
            f = 0
            if quiet.printed(): f |= 16
            after = state()
            if after != before: f |= 32; before = after
            if any(v.tobytes() != array(k[:3]).tobytes() for k, v in shared.items()): f |= 1
            # (every different outcome of a request is judged, the same one only once)
            for q, (k, o) in enumerate(sorted(ends)[:2000]): res.append([f if q == 0 else 0, list(o), k])
        f = 64 if any(v.tobytes() != w for vs, ws in held for v, w in zip(vs, ws)) else 0
        res.append([f, [0] * 8, -1])
    return dict(s=0, res=res, threaded=sum(len(p) for part in plan for p in part))


def warm(req):
    """The requests in a process whose outcomes are of no interest: it leaves compiled code behind."""
    for a in req["asks"]:
        mu, tof, kw = arguments(a)
        outcome(lambda: getattr(lamberthub, NAMES[a["solver"]])(mu, array(a["r1"]), array(a["r2"]), tof, **kw))
    return dict(s=0)


def fresh(req):
    """Each request first thing in a process of its own."""
    out = []
    for a in req["asks"]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                mu, tof, kw = arguments(a)
                st, ty, msg, v = outcome(lambda: getattr(lamberthub, NAMES[a["solver"]])(mu, array(a["r1"]), array(a["r2"]), tof, **kw))
                os.write(w, json.dumps(digest(st, ty, msg, v, kw.get("full_output", False))).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while chunk := os.read(r, 4096): data += chunk
        os.close(r); os.waitpid(pid, 0)
        out.append(json.loads(data) if data else [4] + [0] * 7)
    return dict(s=0, out=out)
