"""P10: intersections with outlines."""
from vlib import *
import world, itxgen

def run(ck):
    d, f, l = world.build(ck, "ITX")
    eps = []
    for kf, kg, m, st in ck.pick([("rect cp op", "line seg rect circ", 2, 37), ("op", "op cp", 2, 23)],
                                 [("rect cp op", "line seg oseg rect circ", 3, 23), ("op cp", "op cp", 2, 7), ("rect", "rect", 5, 2)]):
        eps += world.pairs(ck, "itx", kf, kg, m, st, "ItxOK")
    ck.conform("world", "WorldTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, 0.25, .3)], what="enumerated outlines")
    ck.conform("world", "WorldTrace", [itxgen.hist(ck.rng, ["rect", "cp", "op"], ["line", "seg", "oseg", "circ", "rect", "cp", "op"], ck.rng.choice([4, 9])) for _ in range(ck.pick(700, 15000))],
               [(d, 1.0), (f, 1.0, .5), (l, 4.0, .5), (d, .125, .3)], what="random outlines")
    ck.conform("world", "WorldTrace", world.sims(ck, "itx", "line seg oseg rect circ cp op", ck.pick(500, 12000)), [(d, 1.0), (f, 2.0, .4)], what="histories with intersections")
