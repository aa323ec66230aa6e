"""C06: invalid parameters are refused before anything is computed, for the reason documented; valid ones are not."""
from calls import *

ONE_WRONG = [MU, TOF, REV, DIM, NUL, EQU]
MASKS = [ODD] * 5 + [ODD | MUL, ODD | MU, ODD | TOF, ODD | REV] + ONE_WRONG * 3 + [a | b for a in ONE_WRONG for b in ONE_WRONG if a < b] + [a | b for a in ONE_WRONG for b in (MUL, COL, COL | PI, XT, TINY)] + \
        [MU | TOF | REV | EQU, DIM | NUL, MU | TOF | REV | NUL | MUL] + [0] * 6 + [TINY] * 3 + [XR, XT]


def run(ctx):
    model = tlc(ctx.sc, "lifecycle", ends="ended")
    ctx.say(f"lifecycle: {model[0]} states, every call ends as allowed")
    calls = gen_calls(ctx, MASKS, ctx.pick(7000, 28000), ctx.seed + 6000, "gen")
    reqs, out = run_calls(ctx, calls)
    met = judge_calls(ctx, calls, reqs, out)
    call_coverage(ctx, calls, met, model, "the lifecycle machine is explored completely (states, transitions); the calls are requests generated by the "
                  "specification with none, one, two or more reasons to be refused, none repeated")
