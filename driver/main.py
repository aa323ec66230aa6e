"""Runs the check of one property: exit 0 if it held on everything explored, 1 with a VIOLATION line otherwise, 2 on failure of the machinery."""
import importlib, json, os, sys, time, traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import VERIF, Scratch, Machinery
from report import Context


def main(argv):
    if argv and argv[0] == "--replay":
        import replay
        return replay.main(argv[1])
    prop = argv[0]
    thorough = "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Context(prop, seed, thorough)
    try:
        importlib.import_module(f"checks.{prop.lower()}").run(ctx)
        return ctx.finish()
    except Machinery as e:
        print(f"MACHINERY FAILURE in {prop}: {e}", flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.sc.close()


sys.exit(main(sys.argv[1:]))
