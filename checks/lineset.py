"""shared by the checks built on spec/Lines.tla: points, lines, segments"""
from vlib import *
VARS = [D, F, L]
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 M = %d
 N = 0
 Fam = "%s"
 Stride = %d
 Off = %d
 D = %d
INVARIANTS %s Emit
CHECK_DEADLOCK FALSE
"""
def enum(ck, m, fam, stride, inv="Laws"):
    return [lines_of(h) for h in ck.model_check("LinesMC", CFG % ("enum", m, fam, stride, ck.seed % stride, 0, inv),
            what="all lists of four points of 0..%d (emitting 1/%d)" % (m, stride))]
def sims(ck, num, depth, fam):
    return ck.simulate("LinesMC", CFG % ("sim", 2, fam, 1, 0, depth, "Sound"), num, depth + 2, "random histories, family %s" % fam)
def run(ck, fam):
    ck.build("lines", VARS)
    eps = enum(ck, 2, fam, ck.pick(5, 1))
    ck.conform("lines", "LinesTrace", eps, [(D, 1.0), (F, 1.0, .3), (L, 4.0, .3), (D, .5, .3)], what="four points of a small grid")
    if not ck.pick(True, False):
        eps = enum(ck, 3, fam, 7)
        ck.conform("lines", "LinesTrace", eps, [(D, 1.0), (F, .25, .3)], what="four points of a grid")
    ck.conform("lines", "LinesTrace", sims(ck, ck.pick(600, 12000), 30, fam), [(D, 1.0), (F, 1.0), (L, .5, .5), (D, 64.0, .5)], what="random histories")
