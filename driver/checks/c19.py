"""C19: the time laws of Lambert's problem and what inverts them."""
from functions import *


def run(ctx):
    check_funcs(ctx, [75, 75, 75, 76, 76, 77, 77, 77, 80, 81, 82, 82, 83, 83, 84, 84, 85], 9000, 90000)
