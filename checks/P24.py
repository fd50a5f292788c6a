"""P24: requests that are refused, anywhere in a history."""
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 N = %d
 Stride = %d
 Off = %d
 D = %d
INVARIANTS Laws Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE
"""
def run(ck):
    ck.build("refuse", [D, F, L])
    n, st = ck.pick((2, 2), (3, 12))
    eps = [lines_of(h) for h in ck.model_check("RefuseMC", CFG % ("enum", n, st, ck.seed % st, 0), what="sequences of %d requests (emitting 1/%d)" % (n, st))]
    ck.conform("refuse", "RefuseTrace", eps, [(D, 1.0), (F, 2.0, .3), (L, .5, .3)], what="sequences of requests")
    eps = ck.simulate("RefuseMC", CFG.replace("PROPERTY Kept\n", "") % ("sim", 0, 1, 0, 50), ck.pick(800, 15000), 52, "random requests")
    ck.conform("refuse", "RefuseTrace", eps, [(D, 1.0), (F, 1.0), (L, 4.0, .5), (D, 64.0, .3)], what="random requests")
