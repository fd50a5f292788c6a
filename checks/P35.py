"""P35: drawing on raster images (OpenCV back-end)."""
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 N = %d
 Stride = %d
 Off1 = %d
 D = %d
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
"""
FL = dict(flags=["-I/usr/include/opencv4"], libs=["-lopencv_core", "-lopencv_imgproc", "-lopencv_imgcodecs", "-lopencv_highgui"])
def run(ck):
    d, f, l = [Variant(t, name="pix_" + t.replace(" ", ""), **FL) for t in ("double", "float", "long double")]
    ck.build("pix", [d, f, l])
    st = ck.pick(8, 1)
    eps = [lines_of(h) for h in ck.model_check("PixMC", CFG % ("enum", 1, st, ck.seed % st, 0), what="every object of the grid under 7 settings (emitting 1/%d)" % st)]
    ck.conform("pix", "PixTrace", eps, [(d, 1.0), (f, 1.0, .2), (l, 1.0, .1)], what="single objects")
    eps = ck.simulate("PixMC", CFG % ("sim", 0, 1, 0, 30), ck.pick(600, 12000), 32, "random drawings")
    ck.conform("pix", "PixTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, 1.0, .2)], what="random drawings")
