"""C14: orbital elements and states."""
from functions import *


def run(ctx):
    check_funcs(ctx, [40, 41, 41, 42, 42, 43, 44, 45, 45, 46, 46], 6000, 60000)
