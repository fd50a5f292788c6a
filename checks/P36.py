"""P36: import of SVG documents."""
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 Stride = %d
 Off = %d
 D = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
def run(ck):
    T = Variant("double", libs=["-ltinyxml2"])
    G = Variant("double", defs=["HOMOG2D_OPTIMIZE_SPEED"], libs=["-ltinyxml2"], name="speed")
    ck.build("svgdoc", [T, G])
    st = ck.pick(2, 1)
    eps = [lines_of(h) for h in ck.model_check("SvgDocMC", CFG % ("enum", st, ck.seed % st, 0, "Laws Emit"), what="one element, every spelling (1/%d)" % st)]
    ck.conform("svgdoc", "SvgDocTrace", eps, [(T, 1.0), (G, 1.0, .2)], what="one element, every spelling")
    for d, n in ((6, ck.pick(600, 6000)), (25, ck.pick(500, 8000))):
        eps = ck.simulate("SvgDocMC", CFG % ("sim", 1, 0, d, "Emit"), n, d + 2, "random documents of %d steps" % d)
        ck.conform("svgdoc", "SvgDocTrace", eps, [(T, 1.0), (G, 1.0, .2)], what="random documents of %d steps" % d)
