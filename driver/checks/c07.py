"""C07: undefined and unsupported requests raise; no call hangs, nothing but ValueError and RuntimeError escapes."""
from calls import *

MASKS = [COL, COL | PI] * 5 + [COL | XR, COL | PI | XR, COL | XT, COL | PI | XT, COL | MUL, COL | PI | MUL, COL | MUL | XT, COL | PI | MUL | XT, COL | PI | MUL | XT] + [MUL] * 5 + [MUL | XT, XT, XR, XT | XR, NEAR, 0, 0, ODD]


def run(ctx):
    model = tlc(ctx.sc, "lifecycle", ends="ended")
    ctx.say(f"lifecycle: {model[0]} states, every call ends as allowed")
    calls = gen_calls(ctx, MASKS, ctx.pick(8000, 32000), ctx.seed + 7000, "gen")
    reqs, out = run_calls(ctx, calls)
    met = judge_calls(ctx, calls, reqs, out)
    call_coverage(ctx, calls, met, model, "the lifecycle machine is explored completely (states, transitions); the calls are requests generated by the "
                  "specification: exactly collinear vectors in generic directions and along the axes, several revolutions, extreme times and distances")
