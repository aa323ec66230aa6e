"""What a check found and covered: verdict lines, replay files, known findings, evidence."""
import json, os, re, time
from lib import VERIF, Scratch

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(prop):
    """Findings on record for a property: list of (key, text).  Lines `fixed: ...` are history and suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out


class Context:
    def __init__(self, prop, seed, thorough):
        self.prop, self.seed, self.thorough = prop, seed, thorough
        self.sc = Scratch(prop)
        self.t0 = time.time()
        self.fails = []          # dict(clause, key, ...)
        self.coverage = {}
        self.level = "exploration"
        self.assume = ""

    def say(self, text):
        print(f"[{time.time() - self.t0:6.1f}s] {text}", flush=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def fail(self, clause, key="", **detail):
        self.fails.append(dict(property=self.prop, clause=clause, key=key, **detail))

    def finish(self):
        kn = dict(known(self.prop))
        new, old = [], {}
        for f in self.fails:
            if f["key"] and f["key"] in kn: old.setdefault(f["key"], f)
            else: new.append(f)
        for k in sorted(old): print(f"KNOWN-FINDING: property={self.prop} {kn[k]}")
        ev = dict(property=self.prop, tier="thorough" if self.thorough else "quick", seed=self.seed, level=self.level,
                  coverage=self.coverage, wall_s=round(time.time() - self.t0, 1), violations=len(new), known_findings=len(old))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        if not new:
            self.say(f"{self.prop}: held on everything explored")
            return 0
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        seen = {}
        for n, f in enumerate(new):
            seen.setdefault((f["clause"], f.get("who", "")), []).append(f)
        groups = sorted(seen.items(), key=lambda kv: -len(kv[1]))
        for n, ((clause, who), fs) in enumerate(groups[:8]):
            path = os.path.join("evidence", "replay", f"{self.prop}-{n}.json")
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump(dict(property=self.prop, clause=clause, who=who, count=len(fs), seed=self.seed, thorough=self.thorough, cases=fs[:5]), f, indent=1, default=str)
            print(f"  {len(fs)} x {who} {clause}: {str(fs[0].get('what', ''))[:300]}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        return 1
