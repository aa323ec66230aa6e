"""Drives scripts/generate_benchmark_report.py: JSON commands on stdin, JSON outcomes on stdout. Writes only in its scratch directory."""
import importlib.util, json, os, subprocess, sys
from pathlib import Path

repo, scratch = sys.argv[1], sys.argv[2]
script = os.path.join(repo, "scripts", "generate_benchmark_report.py")
os.chdir(scratch)
spec = importlib.util.spec_from_file_location("generate_benchmark_report", script)
mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)


def attempt(f):
    try: return dict(error="", value=f())
    except Exception as e: return dict(error=type(e).__name__, value=str(e))


for line in sys.stdin:
    r = json.loads(line)
    d, readme = Path(r["dir"]), Path(r["readme"])
    if r["op"] == "section": o = attempt(lambda: mod.build_section(mod.load_reports(d)))
    elif r["op"] == "update":
        def go():
            section = mod.build_section(mod.load_reports(d))
            mod.update_readme(readme, section)
            return section
        o = attempt(go)
    else:
        p = subprocess.run([sys.executable, script, "--benchmarks-dir", str(d), "--readme", str(readme)], capture_output=True, text=True, timeout=60)
        last = (p.stderr.strip().splitlines() or [""])[-1]
        o = dict(error="" if p.returncode == 0 else last.split(":")[0].split(".")[-1] or "exit", value=last)
    print(json.dumps(o), flush=True)
