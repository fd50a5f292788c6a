"""P17: distances, closest points."""
from vlib import *
import world, itxgen, setgen

def run(ck):
    d, f, l = world.build(ck, "DST")
    ck.build("sets", setgen.VARS)
    eps = []
    for kf, kg, m, st in ck.pick([("pt seg oseg line", "pt", 3, 3), ("cp op", "cp op", 2, 211)], [("pt seg oseg line", "pt", 4, 1), ("cp op", "cp op", 2, 17)]):
        eps += world.pairs(ck, "dst", kf, kg, m, st, "DstOK")
    ck.conform("world", "WorldTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, 0.25, .3)], what="enumerated distances")
    rnd = [itxgen.hist(ck.rng, ["pt", "cp"], ["line", "seg", "oseg", "pt", "op", "cp"], ck.rng.choice([4, 9, 20]), ("dst", "cpt")) for _ in range(ck.pick(900, 20000))]
    ck.conform("world", "WorldTrace", rnd, [(d, 1.0), (f, 1.0, .5), (l, 4.0, .5), (d, .125, .3)], what="random distances")
    setgen.run(ck, ("near",))
