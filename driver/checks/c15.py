"""C15: Stumpff functions."""
from functions import *


def run(ctx):
    check_funcs(ctx, [50, 51], 12000, 120000)
