"""P08: intersections of lines and segments."""
from vlib import *
import world, itxgen

def run(ck):
    d, f, l = world.build(ck, "ITX")
    eps = []
    for kf, kg, m, st in ck.pick([("seg oseg line", "seg oseg line", 2, 17)], [("seg oseg line", "seg oseg line", 2, 1), ("seg", "seg line oseg", 3, 7)]):
        eps += world.pairs(ck, "itx", kf, kg, m, st, "ItxOK")
    ck.conform("world", "WorldTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, 0.25, .3)], what="enumerated pairs of lines and segments")
    k = ["line", "seg", "oseg"]
    ck.conform("world", "WorldTrace", [itxgen.hist(ck.rng, k, k, ck.rng.choice([3, 9, 20])) for _ in range(ck.pick(1200, 20000))], [(d, 1.0), (f, 1.0, .5), (l, 4.0, .5), (d, .125, .3)], what="random lines and segments")
