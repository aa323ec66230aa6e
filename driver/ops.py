"""The operations a request can ask for. Only the public interface of the library is used."""
import importlib, math, struct
import numpy as np
import lamberthub

NAMES = ["gauss1809", "battin1984", "jiang2016", "pan2016", "gooding1990", "der2011", "thorne2004", "avanzini2008",
         "arora2013", "vallado2013", "izzo2015", "negrete2024", "mcelreath2025", "delatorre2018"]


def fl(x):
    """A real number of a request: hexadecimal float or an integer."""
    return float.fromhex(x) if isinstance(x, str) else x


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def outcome(call):
    """Status, class and message of an exception, or the value returned."""
    try:
        return 0, "", "", call()
    except ValueError as e:
        return 1, type(e).__name__, str(e), None
    except RuntimeError as e:
        return 2, type(e).__name__, str(e), None
    except BaseException as e:  # anything else is reported, not hidden
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return 3, type(e).__name__, str(e), None


def velocities(res, full):
    """Bits of the six components, number of iterations and time per iteration; None if the value has another shape."""
    if not isinstance(res, tuple) or len(res) != (4 if full else 2):
        return None
    v1, v2 = res[0], res[1]
    for v in (v1, v2):
        if not isinstance(v, np.ndarray) or v.shape != (3,) or v.dtype.kind != "f":
            return None
    w = [bits(float(x)) for x in v1] + [bits(float(x)) for x in v2]
    if not full:
        return w, -1, None
    n, t = res[2], res[3]
    if isinstance(n, (bool, np.bool_)) or not isinstance(n, (int, np.integer)):
        return None
    if not isinstance(t, (int, float, np.integer, np.floating)) or isinstance(t, bool):
        return None
    return w, int(n), float(t)


def solve(req):
    f = getattr(lamberthub, req["solver"])
    mu, tof = fl(req["mu"]), fl(req["tof"])
    r1 = np.array([fl(x) for x in req["r1"]])
    r2 = np.array([fl(x) for x in req["r2"]])
    opts = {k: (fl(v) if k in ("atol", "rtol") else v) for k, v in req.get("opts", {}).items()}
    st, ty, msg, res = outcome(lambda: f(mu, r1, r2, tof, **opts))
    if st:
        return dict(s=st, t=ty, m=msg)
    d = velocities(res, opts.get("full_output", False))
    if d is None:
        return dict(s=5, t=type(res).__name__, m=repr(res)[:200])
    return dict(s=0, w=d[0], n=d[1], tpi=d[2])


def num(n, e):
    return math.ldexp(float(n), e)


# reasons a solver documents for refusing a request, by what tells their messages apart
REASONS = [(1, "gravitational parameter must be positive"), (2, "vector must be three-dimensional"), (3, "cannot be the null vector"),
           (4, "position vectors cannot be equal"), (5, "time of flight must be positive"), (6, "number of revolutions must be equal or greater"), (9, "position vector must be finite"),
           (7, "multi-revolution scenario"), (8, "transfer angle was found to be"), (8, "phase angle is 180"), (8, "collinear")]
PARAMS = ["mu", "r1", "r2", "tof", "M", "is_prograde", "is_low_path", "maxiter", "atol", "rtol", "full_output"]


def call(req):
    f = getattr(lamberthub, req["solver"])
    q = req["q"]
    vals = dict(mu=num(*q["mu"]), r1=np.array([num(x, q["e1"]) for x in q["r1"]], dtype=float), r2=np.array([num(x, q["e2"]) for x in q["r2"]], dtype=float),
                tof=num(*q["tof"]), M=q["revs"], is_prograde=q["pro"], is_low_path=q["low"], maxiter=q["maxiter"], atol=1e-5, rtol=1e-7, full_output=q["full"])
    odd = q.get("odd", 0)
    if odd > 12:
        name = "r1" if odd < 16 else "r2"
        v = vals[name]
        vals[name] = (v.reshape(-1, 1), v.reshape(1, -1), np.array([v, v, v]))[(odd - 13) % 3]
    elif odd:
        name, x = ("mu", "tof", "r1", "r2")[(odd - 1) // 3], (math.nan, math.inf, -math.inf)[(odd - 1) % 3]
        if name in ("mu", "tof"): vals[name] = x
        elif len(vals[name]): vals[name][(q["maxiter"] + abs(q["revs"]) + q["full"] + q["pro"]) % len(vals[name])] = x
    n = {0: 4, 1: 0, 2: 11}[q["how"]]
    args = [vals[p] for p in PARAMS[:n]]
    kw = {p: vals[p] for p in PARAMS[n:] if p not in ("atol", "rtol")}
    st, ty, msg, res = outcome(lambda: f(*args, **kw))
    if st:
        low = msg.lower()
        return dict(s=st, t=ty, m=msg, reason=next((c for c, k in REASONS if k in low), 0))
    d = velocities(res, q["full"])
    if d is None:
        return dict(s=5, t=type(res).__name__, m=repr(res)[:200], reason=0)
    return dict(s=0, w=d[0], n=d[1], tpi=d[2], reason=0)


def flat(y):
    """Numbers a result is made of; None if it is made of something else."""
    if isinstance(y, (bool, np.bool_, int, float, np.integer, np.floating)): return [float(y)]
    if isinstance(y, np.ndarray) and y.dtype.kind in "fiu": return [float(v) for v in y.ravel()]
    if isinstance(y, (tuple, list)):
        parts = [flat(v) for v in y]
        return None if any(p is None for p in parts) else [v for p in parts for v in p]
    return None


def find(name):
    mod, f = name.split(":")
    return getattr(importlib.import_module(mod), f)


def shaped(shape, x):
    args, i = [], 0
    for c in shape:
        if c in "vw": n = 3 if c == "v" else 8; args.append(np.array(x[i:i + n])); i += n
        else: args.append(x[i] if c == "f" else bool(x[i]) if c == "b" else "HAB"[int(x[i])] if c == "s" else int(x[i])); i += 1
    return args


def fn(req):
    """A function, or a chain of functions each of which gets what the former returned."""
    x = [fl(v) for v in req["x"]]

    def go():
        st = req["steps"]
        if isinstance(st, str):
            f = find("lamberthub.utils.angles:" + st.split()[1])
            return [f(*shaped("vv", x), b) for b in (True, False)]
        y = find(st[0][0])(*shaped(st[0][1], x))
        for name, shape in st[1:]:
            args = []
            for c in shape: args += [y] if c == "t" else [np.array(x[:8])] if c == "w" else [int(x[8])] if c == "n" else [y["AB".index(c)]] if c in "AB" else (list(y) if isinstance(y, (tuple, list)) or (isinstance(y, np.ndarray) and y.ndim == 2) else [y]) if c == "*" else [x[int(c)]]
            y = find(name)(*args)
        return y
    st, ty, msg, y = outcome(go)
    if st == 3 and req.get("optional") and (ty in ("AttributeError", "ModuleNotFoundError", "ImportError") or (ty == "TypeError" and "argument" in msg)): return dict(s=6, t=ty, m=msg)
    if st: return dict(s=st, t=ty, m=msg)
    w = flat(y)
    if w is None: return dict(s=5, t=type(y).__name__, m=repr(y)[:200])
    return dict(s=0, w=[bits(v) for v in w])


def default(v):
    """Kind and value of a default: 1 integer, 2 real (in units of 1e-15), 3 truth value, 0 something else."""
    if isinstance(v, (bool, np.bool_)): return [3, int(v)]
    if isinstance(v, (int, np.integer)): return [1, int(v)]
    if isinstance(v, (float, np.floating)): return [2, round(float(v) * 1e15)]
    return [0, 0]


def roster(req):
    """The lists of the package and how each solver is called."""
    import inspect
    kinds = {inspect.Parameter.POSITIONAL_OR_KEYWORD: 1}
    lists = {n: [getattr(f, "__name__", repr(f)) for f in getattr(lamberthub, n)] for n in
             ("ALL_SOLVERS", "ZERO_REV_SOLVERS", "MULTI_REV_SOLVERS", "ROBUST_SOLVERS", "NON_ROBUST_SOLVERS")}
    same = all(getattr(lamberthub, f.__name__, None) is f for n in lists for f in getattr(lamberthub, n))
    sig = {f.__name__: [[p.name, kinds.get(p.kind, 0), p.default is not p.empty, *default(p.default)] for p in inspect.signature(f).parameters.values()]
           for f in lamberthub.ALL_SOLVERS}
    return dict(s=0, lists=lists, same=same, sig=sig)


def vector(kind, v):
    """The same three numbers as an array of another kind."""
    if kind == 1: return np.array(v, dtype=np.int64)
    if kind == 6: return np.array(v, dtype=np.int32)
    a = np.array(v, dtype=float)
    if kind == 2: b = np.full(6, np.nan); b[::2] = a; return b[::2]
    if kind == 3: a.flags.writeable = False; return a
    if kind == 4: return a[::-1].copy()[::-1]
    if kind == 5: b = np.full((3, 3), np.nan); b[:, 1] = a; return b[:, 1]
    return a


def scalar(kind, x):
    return int(x) if kind == 1 else np.float64(x) if kind == 2 else np.int64(int(x)) if kind == 3 else float(x)


def form(req):
    """A call in one of its forms."""
    import hashlib, inspect
    f = getattr(lamberthub, req["solver"])
    q, m = req["q"], req["form"]
    vals = dict(mu=scalar(m["mu"], q["mu"]), r1=vector(m["v1"], q["r1"]), r2=vector(m["v2"], q["r2"]), tof=scalar(m["tof"], q["tof"]),
                M=np.int64(q["M"]) if m["revs"] else q["M"], is_prograde=q["pro"], is_low_path=q["low"], full_output=q["full"], **{k: fl(v) for k, v in q["opts"].items()})
    usual = dict(M=0, is_prograde=True, is_low_path=True, maxiter=inspect.signature(f).parameters["maxiter"].default, full_output=False,
                 **(dict(atol=1e-12, rtol=1e-12) if req["solver"] == "delatorre2018" else dict(atol=1e-5, rtol=1e-7)))
    for k in usual: vals.setdefault(k, usual[k])
    for k in usual:
        v = vals[k]
        if m["flags"] and k != "M" and vals[k] is not None: vals[k] = np.bool_(v) if isinstance(v, bool) else np.int64(v) if isinstance(v, int) else np.float64(v)
    args = [vals[p] for p in PARAMS[:m["how"]]]
    kw = {p: vals[p] for p in PARAMS[m["how"]:] if not (m["omit"] and p in usual and usual[p] == vals[p])}
    st, ty, msg, res = outcome(lambda: f(*args, **kw))
    h = lambda s: int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], "little")
    if st: return dict(s=st, t=ty, m=msg, kind=h(ty), msg=h(msg))
    d = velocities(res, q["full"])
    if d is None: return dict(s=5, t=type(res).__name__, m=repr(res)[:200], kind=0, msg=0)
    return dict(s=0, w=d[0], n=d[1], kind=0, msg=0)


OPS = dict(fn=fn, solve=solve, call=call, roster=roster, form=form)


def run(req):
    if req["op"] in ("session", "fresh", "warm"):
        import session_ops
        return getattr(session_ops, req["op"])(req)
    return OPS[req["op"]](req)
