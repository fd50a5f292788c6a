"""P32: homographies from pairs of points; bindings with other libraries."""
import homog
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 N = %d
 Stride = %d
 Off = %d
 D = %d
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
"""
FL = dict(flags=["-I/usr/include/opencv4"], libs=["-lopencv_core", "-lopencv_imgproc", "-lopencv_imgcodecs", "-lopencv_highgui"])
V = [Variant(t, name="bind_" + t.replace(" ", ""), **FL) for t in ("double", "float", "long double")]
def run(ck):
    ck.build("bind", V)
    homog.p32(ck)
    n, st = ck.pick((5, 3), (6, 2))
    eps = [lines_of(h) for h in ck.model_check("BindMC", CFG % ("enum", n, st, ck.seed % st, 0), what="polygons of up to %d points (emitting 1/%d)" % (n, st))]
    ck.conform("bind", "BindTrace", eps, [(V[0], 1.0), (V[1], 1.0, .4), (V[2], 4.0, .4)], what="imported polygons")
    eps = ck.simulate("BindMC", CFG % ("sim", 0, 1, 0, 40), ck.pick(500, 12000), 42, "random exchanges with other libraries")
    ck.conform("bind", "BindTrace", eps, [(V[0], 1.0), (V[1], 1.0), (V[2], 2.0, .5), (V[0], 64.0, .5)], what="random exchanges with other libraries")
