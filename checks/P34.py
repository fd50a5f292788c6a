"""P34: the tolerances, set at build time or at any time of a run, and the decisions that depend on them."""
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 N = %d
 Stride = %d
 Off = %d
 D = %d
INVARIANTS OwnOK MonoOK BackOK SymOK Emit
CHECK_DEADLOCK FALSE
"""
def run(ck):
    d, f, l = Variant("double"), Variant("float"), Variant("long double")
    b = Variant("double", defs=["HOMOG2D_THR_ZERO_DIST=0.5", "HOMOG2D_THR_ZERO_ORTHO_DIST=1.25", "HOMOG2D_THR_ZERO_DENOM=0.0625", "HOMOG2D_THR_ZERO_DETER=2."], name="tolerances")
    g = Variant("double", defs=["HOMOG2D_OPTIMIZE_SPEED", "HOMOG2D_ENABLE_VRTP"], name="speed_vrtp")
    V = [d, f, l, b, g]
    ck.build("tol", V)
    n, st = ck.pick((3, 3), (4, 8))
    eps = [lines_of(h) for h in ck.model_check("TolMC", CFG % ("enum", n, st, ck.seed % st, 0), what="sequences of %d changes (emitting 1/%d)" % (n, st))]
    ck.conform("tol", "TolTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, 1.0, .3), (b, 1.0, .3), (g, 1.0, .2)], what="sequences of changes")
    eps = ck.simulate("TolMC", (CFG % ("sim", 0, 1, 0, 60)).replace("OwnOK MonoOK BackOK SymOK ", ""), ck.pick(1500, 40000), 62, "random histories")
    ck.conform("tol", "TolTrace", eps, [(d, 1.0), (f, 1.0, .5), (l, 1.0, .3), (b, 1.0, .5), (g, 1.0, .3)], what="random histories")
