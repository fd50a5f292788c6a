"""shared by the checks built on spec/Homog.tla"""
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 N = 0
 B = %d
 Stride = %d
 Off = %d
 D = %d
 Fam = "%s"
INVARIANTS %s Emit
CHECK_DEADLOCK FALSE
"""
INV = "InvOK ComposeOK IncidenceOK"
def enum(ck, depth, b, stride, fam):
    return [lines_of(h) for h in ck.model_check("HomogMC", CFG % ("enum", b, stride, ck.seed % stride, depth, fam, INV),
            what="all histories of %d modifications (emitting 1/%d)" % (depth, stride))]
def sims(ck, num, b, depth, fam):
    return ck.simulate("HomogMC", CFG % ("sim", b, 1, 0, depth, fam, ""), num, depth + 2, "random histories, cells up to %d" % b)
def p13(ck):
    ck.build("homog", [D, F, L])
    eps = enum(ck, ck.pick(3, 4), 40, ck.pick(23, 61), "")
    ck.conform("homog", "HomogTrace", eps, [(D, 1.0), (F, 1.0, .4), (L, 4.0, .4), (D, .5, .4)], what="enumerated histories")
    for b, fam, cf in ((40, "", [(D, 4.0), (L, .5, .5), (D, 64.0, .5)]), (12, "tra", [(D, 1.0), (F, 1.0), (L, 1.0, .5)])):
        ck.conform("homog", "HomogTrace", sims(ck, ck.pick(500, 12000), b, 40, fam), cf, what="random histories")
def p14(ck):
    ck.build("homog", [D, F, L])
    st = ck.pick(13, 1)
    eps = [lines_of(h) for h in ck.model_check("HomogMC", CFG % ("img", 40, st, ck.seed % st, 1, "img", ""), what="figures x matrices (emitting 1/%d)" % st)]
    ck.conform("homog", "HomogTrace", eps, [(D, 1.0), (F, 1.0, .4), (L, 4.0, .4)], what="every figure under every matrix")
    for b, cf in ((40, [(D, 4.0), (L, .5, .5)]), (12, [(D, 1.0), (F, 1.0)])):
        ck.conform("homog", "HomogTrace", sims(ck, ck.pick(400, 9000), b, 40, "img"), cf, what="random figures and histories")
BIND = dict(defs=["HOMOG2D_USE_OPENCV", "HOMOG2D_USE_EIGEN"], flags=["-I/usr/include/opencv4", "-I/usr/include/eigen3"],
            libs=["-lopencv_core", "-lopencv_imgproc", "-lopencv_imgcodecs", "-lopencv_highgui"])
BD, BF, BL = (Variant(t, name="bind_" + t.replace(" ", ""), **BIND) for t in ("double", "float", "long double"))
BE = Variant("double", defs=["HOMOG2D_USE_EIGEN"], flags=["-I/usr/include/eigen3"], name="eigen_only")
def p32(ck):
    ck.build("homog", [BD, BF, BL, BE])
    st = ck.pick(5, 1)
    eps = [lines_of(h) for h in ck.model_check("HomogMC", CFG % ("four", 40, st, ck.seed % st, 1, "bind", "FourOK"), what="four pairs of points (emitting 1/%d)" % st)]
    noex = lambda es: [[l for l in e if not l.startswith("cv")] for e in es]
    ck.conform("homog", "HomogTrace", eps, [(BD, 1.0), (BF, 1.0, .4), (BL, 4.0, .4)], what="four pairs of points")
    ck.conform("homog", "HomogTrace", noex(eps), [(BE, 1.0, .2)], what="four pairs of points, Eigen only")
    for b, cf in ((40, [(BD, 1.0), (BL, .5, .5)]), (12, [(BD, 4.0), (BF, 1.0)])):
        ck.conform("homog", "HomogTrace", sims(ck, ck.pick(300, 12000), b, 40, "bind"), cf, what="random histories with other libraries")
