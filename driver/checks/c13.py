"""C13: anomalies and Kepler's equations."""
from functions import *


def run(ctx):
    check_funcs(ctx, [20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 29, 30, 31, 32, 33, 34, 35], 12000, 120000)
