"""shared by the checks built on spec/World.tla"""
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 KF = {%s}
 KG = {%s}
 M = %d
 Fam = "%s"
 Stride = %d
 Off = %d
 D = %d
INVARIANTS %s Emit
CHECK_DEADLOCK FALSE
"""
ks = lambda s: ", ".join('"%s"' % k for k in s.split())
def V(q, ft="double"):
    return Variant(ft, defs=["Q_" + q])
def build(ck, q):
    vs = [V(q), V(q, "float"), V(q, "long double")]
    ck.build("world", vs)
    return vs
def pairs(ck, fam, kf, kg, m, stride, invs):
    return [lines_of(h) for h in ck.model_check("WorldMC", CFG % ("pair", ks(kf), ks(kg), m, fam, stride, ck.seed % stride, 0, invs),
            what="all pairs {%s} x {%s} on 0..%d (emitting 1/%d)" % (kf, kg, m, stride))]
def sims(ck, fam, kinds, num, length=22):
    return [lines_of(h) for h in ck.model_check("WorldMC", CFG % ("sim", ks(kinds), ks(kinds), 3, fam, 1, 0, length, ""),
            args=["-simulate", "num=%d" % num, "-depth", str(length + 4), "-seed", str(ck.seed)], workers=1, what="random histories (%s)" % fam)]
KN = dict(pt=1, line=2, seg=3, oseg=4, rect=5, circ=6, cp=7, op=8)
def new(s, k, v, *a): return line("new", s, KN[k], v, *a)
