"""Executes requests against the library in /repo: one JSON request per line on stdin, one JSON outcome per line on stdout.

Runs with the repository's python.  The library prints nothing on stdout: whatever it would print is collected and reported.
"""
import io, json, os, sys, time, struct

def main():
    out = os.fdopen(os.dup(1), "w")
    nul = os.open(os.devnull, os.O_WRONLY)
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import numpy as np
    np.seterr(all="ignore")
    import ops
    out.write(json.dumps({"ready": True}) + "\n"); out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        t = time.perf_counter()
        res = ops.run(req)
        res["id"] = req["id"]
        res["wall"] = time.perf_counter() - t
        out.write(json.dumps(res) + "\n"); out.flush()

main()
