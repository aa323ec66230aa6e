"""Runs the requests of a replay file again and prints what was recorded and what the library does now."""
import json, os
from lib import VERIF, Scratch, execute


def main(path):
    d = json.load(open(path if os.path.exists(path) else os.path.join(VERIF, path)))
    sc = Scratch("replay")
    try:
        for c in d["cases"]:
            print("case:", c["clause"], c.get("what", ""))
            reqs = c.get("requests") or []
            for compiled in sorted({bool(r.get("compiled")) for r in reqs}):
                part = [r for r in reqs if bool(r.get("compiled")) == compiled]
                for r, o in zip(part, execute(sc, [dict(r) for r in part], compiled=compiled, workers=1)):
                    print("  request:", json.dumps({k: v for k, v in r.items() if k != "id"}))
                    print("  now:    ", json.dumps(o))
            print("  then:   ", json.dumps(c.get("outcomes")))
            if c.get("expected"): print("  expected:", json.dumps(c["expected"]))
    finally:
        sc.close()
    print(f"verdict: run VERIF_SEED={d['seed']} ./check {d['property']}" + (" --thorough" if d["thorough"] else ""))
    return 0
