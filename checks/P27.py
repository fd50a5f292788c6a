"""P27: SVG export then import."""
from drawset import *
def run(ck):
    vs = [D_, F_, L_]
    ck.build("draw", vs)
    ck.conform("draw", "DrawTrace", enum(ck, 3, ck.pick(9, 1)), [(D_, 1.0)], what="short histories")
    ck.conform("draw", "DrawTrace", sims(ck, "rt", ck.pick(1200, 20000), 24), [(D_, 1.0), (F_, 1.0, .3), (L_, 1.0, .3)], what="random histories")
