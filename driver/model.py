"""Exhaustive checks of the finite machines of the specification: TLC on the TLA+ Quint compiles to, and Apalache."""
import os, re, subprocess, zipfile
from lib import Machinery

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
APA = "/opt/veriftools/apalache-0.58.0/lib/apalache.jar"
LIBS = ["Apalache.tla", "Variants.tla", "__apalache_folds.tla", "__apalache_internal.tla"]


def tlc(sc, main, invariants=("inv",), ends=None, workers=4, timeout=800, deadlock=True, file=None):
    """Checks invariants, absence of deadlock and (under fairness) that `ends` is reached. Returns (distinct states, generated)."""
    d = sc.path(f"tlc-{main}"); lib = os.path.join(d, "lib"); os.makedirs(lib, exist_ok=True)
    z = zipfile.ZipFile(APA)
    for n in z.namelist():
        b = os.path.basename(n)
        if b in LIBS and "StandardModules" in n:
            with open(os.path.join(lib, b), "wb") as f: f.write(z.read(n))
    p = subprocess.run(["quint", "compile", "--target", "tlaplus", f"{file or main}.qnt", "--main", main, "--invariant", " and ".join(invariants)], cwd=sc.dir, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0: raise Machinery(f"quint compile {main}: {p.stdout[-1500:]}{p.stderr[-1500:]}")
    text = p.stdout[p.stdout.index("-----"):]
    names = re.search(r"^VARIABLES?\b", text, re.M)
    vs = re.findall(r"^\s*VARIABLE\s*\n(?:.*\n)*?\s*(\w+)\s*$", text, re.M) or re.findall(r"VARIABLES?\s+([\w, \n]+)", text)
    tail = f"vars == << {', '.join(vs)} >>\nFair == q_init /\\ [][q_step]_vars /\\ WF_vars(q_step)\n"
    if ends: tail += f"Ends == <>[]({ends})\n"
    i = text.rindex("====")
    while text[i - 1] == "=": i -= 1
    with open(os.path.join(d, f"{main}.tla"), "w") as f: f.write(text[:i] + tail + text[i:])
    with open(os.path.join(d, f"{main}.cfg"), "w") as f:
        f.write("SPECIFICATION Fair\n" + "INVARIANT q_inv\n" + ("PROPERTY Ends\n" if ends else ""))
    cmd = ["java", "-Xmx6g", f"-Djava.io.tmpdir={d}", f"-DTLA-Library={lib}", "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-config", f"{main}.cfg", f"{main}.tla"]
    if not deadlock: cmd.insert(-3, "-deadlock")
    p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, 0 states left", p.stdout)
    if "Model checking completed. No error has been found." not in p.stdout or not m:
        raise Machinery(f"TLC on {main}: the specification itself fails\n{p.stdout[-3500:]}{p.stderr[-500:]}")
    return int(m[-1][1]), int(m[-1][0])


def apalache(sc, main, invariants=("inv",), steps=6, port=8900, timeout=800):
    """Bounded symbolic check of invariants."""
    p = subprocess.run(["quint", "verify", f"{main}.qnt", "--main", main, "--max-steps", str(steps), "--invariants", *invariants,
                        "--server-endpoint", f"localhost:{port}"], cwd=sc.dir, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0: raise Machinery(f"apalache on {main}: {p.stdout[-3000:]}{p.stderr[-2000:]}")
    return steps
