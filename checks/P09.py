"""P09: circle intersections."""
from vlib import *
import world, itxgen

def run(ck):
    d, f, l = world.build(ck, "ITX")
    eps = []
    for kf, kg, m, st in ck.pick([("circ", "circ seg oseg line", 3, 5)], [("circ", "circ seg oseg line", 3, 1), ("circ", "seg circ", 4, 3)]):
        eps += world.pairs(ck, "itx", kf, kg, m, st, "ItxOK")
    ck.conform("world", "WorldTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, 0.25, .3)], what="enumerated circles with lines, segments, circles")
    k = ["line", "seg", "oseg", "circ", "circ"]
    ck.conform("world", "WorldTrace", [itxgen.hist(ck.rng, ["circ"], k, ck.rng.choice([4, 9, 14])) for _ in range(ck.pick(1000, 20000))], [(d, 1.0), (f, 1.0, .5), (l, 4.0, .5), (d, .125, .3)], what="random circles")
