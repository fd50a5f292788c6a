"""P01: polyline histories; the reported values are those of the current vertices."""
from vlib import *
import polygen

CFG = """SPECIFICATION Spec
CONSTANTS D = %d
 Full = %s
INVARIANTS %sEmit
CHECK_DEADLOCK FALSE
"""
def run(ck):
    ck.build("polyline", [D, F, L])
    small = ck.model_check("PolylineMC", CFG % (ck.pick(2, 3), "FALSE", "TypeOK MinOK TurnOK SimpleArea "), what="all histories of length %d" % ck.pick(2, 3))
    eps = [lines_of(h) for h in small]
    ck.conform("polyline", "PolylineTrace", eps, [(D, 1.0), (F, 1.0, .2), (L, 0.125, .2)], what="exhaustive short histories")
    sims = ck.model_check("PolylineMC", CFG % (14, "TRUE", ""), args=["-simulate", "num=%d" % ck.pick(200, 8000), "-depth", "20", "-seed", str(ck.seed)], workers=1, what="random long histories")
    ck.conform("polyline", "PolylineTrace", [lines_of(h) for h in sims], [(D, 1.0), (F, 1.0), (L, 1.0), (D, 64.0), (D, 0.0625)], what="simulated histories")
    rnd = [polygen.history(ck.rng, ck.rng.randint(6, 30)) for _ in range(ck.pick(300, 6000))]
    ck.conform("polyline", "PolylineTrace", rnd, [(D, 1.0), (F, 1.0), (L, 0.5), (D, 1024.0)], what="random histories on larger polylines")
