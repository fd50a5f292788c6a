"""shared by P02..P05: TLC enumeration of all vertex lists on a grid (spec/PolyEnum.tla), replayed on the real code"""
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS W=%d
 H=%d
 N=%d
 Mode="%s"
 Stride=%d
 Off=%d
INVARIANTS %s Emit
CHECK_DEADLOCK FALSE
"""
def enum(ck, mode, w, h, n, stride, invs):
    return [lines_of(x) for x in ck.model_check("PolyEnum", CFG % (w, h, n, mode, stride, ck.seed % stride, invs),
            what="all %d-vertex lists on %dx%d (emitting 1/%d, %s)" % (n, w, h, stride, mode))]
