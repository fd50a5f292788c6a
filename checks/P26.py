"""P26: drawing settings, SVG images."""
from drawset import *
def run(ck):
    vs = [D_, F_, L_]
    ck.build("draw", vs)
    ck.conform("draw", "DrawTrace", enum(ck, ck.pick(3, 4), ck.pick(5, 41)), [(D_, 1.0), (F_, 1.0, .2)], what="short histories")
    ck.conform("draw", "DrawTrace", sims(ck, "sim", ck.pick(700, 12000), 36), [(D_, 1.0), (F_, 1.0, .4), (L_, 1.0, .3)], what="random histories")
