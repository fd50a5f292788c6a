"""P11: the intersection area of two rectangles is the exact common rectangle."""
from vlib import *
import world, rectgen
OPS = ("iar",)
def run(ck):
    rectgen.check(ck, OPS)
