"""C18: conics through two positions."""
from functions import *


def run(ctx):
    check_funcs(ctx, [70, 71, 72, 72, 73, 73, 73, 74, 74, 74], 9000, 90000)
