from vlib import *
S = Variant("double", defs=["HOMOG2D_OPTIMIZE_SPEED"])
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 Stride = %d
 Off = %d
 D = %d
INVARIANTS %s Emit
CHECK_DEADLOCK FALSE
"""
def run(ck):
    ck.build("ellipse", [D, F, L, S])
    st = ck.pick(37, 4)
    eps = [lines_of(h) for h in ck.model_check("EllipseMC", CFG % ("enum", st, ck.seed % st, 0, "Laws"), what="ellipses under pairs of maps (emitting 1/%d)" % st)]
    ck.conform("ellipse", "EllipseTrace", eps, [(D, 1.0), (S, 1.0, .5), (F, 1.0, .3), (L, 4.0, .3), (D, .5, .3)], what="ellipses under pairs of maps")
    eps = ck.simulate("EllipseMC", CFG % ("sim", 1, 0, 20, "Sound"), ck.pick(600, 12000), 22, "random histories")
    ck.conform("ellipse", "EllipseTrace", eps, [(D, 1.0), (S, 8.0, .5), (F, 1.0, .5), (L, .5, .3), (D, 64.0, .3), (D, .0625, .3)], what="random histories")
