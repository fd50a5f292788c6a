"""P37: text output."""
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 Stride = %d
 Off = %d
 D = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
def run(ck):
    d, f, l = Variant("double"), Variant("float"), Variant("long double")
    r = Variant("double", defs=["HOMOG2D_ENABLE_PRTP", "HOMOG2D_OPTIMIZE_SPEED"])
    ck.build("print", [d, f, l, r])
    st = ck.pick(3, 1)
    eps = [lines_of(h) for h in ck.model_check("PrintMC", CFG % ("enum", st, ck.seed % st, 0, "Laws Emit"), what="one object of each kind (1/%d)" % st)]
    ck.conform("print", "PrintTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, 1.0, .3), (r, 1.0, .5)], what="one object of each kind")
    eps = ck.simulate("PrintMC", CFG % ("sim", 1, 0, 40, "Emit"), ck.pick(600, 12000), 42, "random histories")
    ck.conform("print", "PrintTrace", eps, [(d, 1.0), (f, 1.0, .5), (l, 1.0, .3), (r, 1.0, .5)], what="random histories")
