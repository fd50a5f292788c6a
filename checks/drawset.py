"""Shared by P26 and P27: spec/Draw.tla."""
from vlib import *
LX = ["-ltinyxml2"]
D_ = Variant("double", libs=LX)
F_ = Variant("float", libs=LX)
L_ = Variant("long double", libs=LX)
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 N = %d
 Stride = %d
 Off_ = %d
 D = %d
%s
CHECK_DEADLOCK FALSE
"""
def enum(ck, n, stride):
    return [lines_of(h) for h in ck.model_check("DrawMC", CFG % ("enum", n, stride, ck.seed % stride, 0, "INVARIANTS Laws Emit\nPROPERTY Frame"),
            what="every history of %d calls (emitting 1/%d)" % (n, stride))]
def sims(ck, mode, num, depth):
    return ck.simulate("DrawMC", CFG % (mode, 0, 1, 0, depth, "INVARIANT Emit"), num, depth + 2, "random histories (%s)" % mode)
