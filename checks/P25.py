"""P25: objects held through the variant type and through root-class pointers."""
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 N = 0
 Stride = %d
 Off = %d
 D = %d
INVARIANTS %sEmit
CHECK_DEADLOCK FALSE
"""
def run(ck):
    A = Variant("double", "float", name="a"); B = Variant("float", "double", name="b"); C = Variant("long double", "double", name="c")
    ck.build("rtp", [A, B, C])
    n, st = ck.pick((3, 3), (4, 7))
    eps = [lines_of(h) for h in ck.model_check("RtpMC", CFG % ("enum", st, ck.seed % st, n, "Laws "), what="each figure through every sequence of %d transformations (emitting 1/%d)" % (n - 1, st))]
    ck.conform("rtp", "RtpTrace", eps, [(A, 1.0), (B, 1.0, .5), (C, .5, .5)], what="figures through transformations")
    eps = ck.simulate("RtpMC", CFG % ("sim", 1, 0, 40, ""), ck.pick(700, 12000), 42, "random lists of objects")
    ck.conform("rtp", "RtpTrace", eps, [(A, 1.0), (B, 1.0), (C, 4.0, .5), (A, 0.5, .5)], what="random lists of objects")
