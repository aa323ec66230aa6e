"""C12: geometry utilities."""
from functions import *


def run(ctx):
    check_funcs(ctx, [1, 2, 3, 10, 10, 11, 12, 12, 13, 13, 14, 60, 61], 16000, 160000)
