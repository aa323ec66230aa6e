"""C20: Thorne's series, its reversion, and the bounds of the semi-major axis."""
from functions import *


def run(ctx):
    check_funcs(ctx, [86, 87, 88, 88, 89, 90], 4000, 40000)
