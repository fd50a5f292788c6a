"""P12: union of two rectangles, and intersection over union."""
from vlib import *
import world, rectgen
OPS = ("uni", "iou")
def run(ck):
    rectgen.check(ck, OPS)
