"""P18: bounding boxes."""
from vlib import *
import world, itxgen, setgen, polygen

def hist(rng):
    m = rng.choice([4, 9, 20])
    ks = rng.choice([["pt", "seg", "oseg", "rect", "circ", "cp", "op", "op"], ["pt", "seg"], ["cp", "op"], ["rect", "circ"], ["seg", "line", "circ"]])
    def fig(s):
        k = rng.choice(ks)
        if k == "op" and rng.random() < .3: return world.new(s, "op", 0, 0)          # empty polyline
        if k == "op" and rng.random() < .3: return world.new(s, "op", 0, 2, 0, rng.randint(-m, m), 5, rng.randint(-m, m))
        return itxgen.fig(rng, s, k, m)
    ep = ["begin"] + [fig(i) for i in range(1, 7)]
    for _ in range(rng.randint(3, 7)):
        s, t = rng.randint(1, 6), rng.randint(1, 6)
        c = rng.random()
        if c < .3: ep.append(fig(s))
        elif c < .45: ep.append(line("tr", s, rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(0, 2)))
        elif c < .55: ep.append(line("asg", s, t))
        elif c < .6: ep.append(line("bb", s, t))
        elif c < .65: ep.append(line("rot", s, rng.randint(0, 4), 0))
        for _ in range(2):
            ep += [line("bb2", s, t, rng.randint(0, 1)), line("bb2", t, s, 0)]
            l = [rng.randint(1, 6) for _ in range(rng.randint(1, 6))]
            ep += [line("bbn", 0, l), line("bbn", 0, l[::-1]), line("bbk", rng.randint(0, 2), l), line("bbk", 0, s, t), "bbk 1 1 2 3 4 5 6"]
            t = rng.randint(1, 6)
    return ep

def run(ck):
    d, f, l = world.build(ck, "BB")
    ck.build("sets", setgen.VARS)
    eps = []
    for kf, kg, m, st in ck.pick([("pt seg oseg rect circ cp op", "rect circ pt", 2, 31), ("seg op cp", "seg op", 2, 211)],
                                 [("pt seg oseg rect circ cp op", "rect circ pt seg", 3, 53), ("seg op cp", "op cp", 2, 13)]):
        eps += world.pairs(ck, "bb", kf, kg, m, st, "BBOK")
    ck.conform("world", "WorldTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, 0.25, .3)], what="bounding boxes of enumerated pairs")
    ck.conform("world", "WorldTrace", [hist(ck.rng) for _ in range(ck.pick(700, 15000))], [(d, 1.0), (f, 1.0, .5), (l, 4.0, .5), (d, .125, .3)], what="random figures and containers")
    ck.conform("world", "WorldTrace", world.sims(ck, "bb", "pt line seg oseg rect circ cp op", ck.pick(500, 12000)), [(d, 1.0), (f, 2.0, .4)], what="histories")
    setgen.run(ck, ("bb",))
