"""P28: SVG path strings."""
from vlib import *
T = Variant("double", libs=["-ltinyxml2"])
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 N = %d
 Stride = %d
 Off = %d
 D = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
def run(ck):
    ck.build("svgpath", [T])
    st = ck.pick(1, 17)
    n = ck.pick(3, 4)
    eps = [lines_of(h) for h in ck.model_check("SvgPathMC", CFG % ("enum", n, st, ck.seed % st, 0, "Laws Emit"), what="all sequences of up to %d items after a move (emitting 1/%d)" % (n, st))]
    ck.conform("svgpath", "SvgPathTrace", eps, [(T, 1.0)], what="all short item sequences")
    for d in (2, 5, 9):
        eps = ck.simulate("SvgPathMC", CFG % ("sim", 0, 1, 0, d, "Emit"), ck.pick(800, 15000), d + 2, "random strings of %d items" % d)
        ck.conform("svgpath", "SvgPathTrace", eps, [(T, 1.0)], what="random strings of %d items" % d)
