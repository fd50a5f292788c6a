"""P30: copies and conversions."""
from vlib import *
import world, itxgen

def hist(rng):
    m = rng.choice([4, 9, 20])
    K = rng.choice([["pt", "line", "seg", "oseg", "rect", "circ", "cp", "op"], ["cp", "op", "rect"], ["seg", "oseg", "line"]])
    ep = ["begin"] + [itxgen.fig(rng, i, rng.choice(K), m) for i in range(1, 7)]
    for _ in range(rng.randint(6, 14)):
        s, t = rng.randint(1, 6), rng.randint(1, 6)
        R = lambda: rng.randint(-m, m)
        c = rng.random()
        if c < .4: ep.append(line(rng.choice(["asg", "conv", "self", "asg"]), s, t))
        elif c < .5: ep.append(line(rng.choice(["seg2", "neg", "r2p", "o2c", "bb"]), s, t))
        elif c < .6: ep.append(line("tr", s, R(), R(), rng.randint(0, 2)))
        elif c < .68: ep.append(line("mv", s, R(), R(), rng.randint(0, 2)))
        elif c < .74: ep.append(line("roto", s, rng.randint(0, 4), rng.randint(0, 3)))
        elif c < .78: ep.append(line("own", s, rng.randint(0, 14), *rng.choice([(3, 4), (-4, 3), (4, -3), (5, 12), (6, -8), (0, 3)])))
        elif c < .83: ep.append(itxgen.fig(rng, s, rng.choice(K), m))
        if rng.random() < .5: ep.append(line("eq", s, t))
        if rng.random() < .5: ep += [line("obs", t), line("obs", s)]
        if rng.random() < .2: ep += [line("asg", s, s), line("eq", s, s)]
    return ep + [line("obs", i) for i in range(1, 7)]

def run(ck):
    d, f, l = world.build(ck, "BB")
    eps = []
    for kf, kg, m, st in ck.pick([("pt seg oseg line rect circ cp op", "line seg cp", 2, 1201)], [("pt seg oseg line rect circ cp op", "line seg cp op rect", 2, 101)]):
        eps += world.pairs(ck, "eq", kf, kg, m, st, "EqOK")
    ck.conform("world", "WorldTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, 0.25, .3)], what="copies of enumerated figures")
    ck.conform("world", "WorldTrace", world.sims(ck, "eq", "pt line seg oseg rect circ cp op", ck.pick(500, 15000), 26), [(d, 1.0), (f, 2.0, .4)], what="model histories")
    ck.conform("world", "WorldTrace", [hist(ck.rng) for _ in range(ck.pick(1200, 25000))], [(d, 1.0), (f, 1.0, .5), (l, 4.0, .5)], what="random histories of copies")
