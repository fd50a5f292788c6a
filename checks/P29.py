"""P29: rectangles and circles keep their invariants through any history."""
from vlib import *
import world, itxgen

def hist(rng):
    m = rng.choice([4, 9, 20])
    ep = ["begin"]; ext = True
    for i in range(1, 7): ep.append(itxgen.fig(rng, i, rng.choice(["rect", "circ"]), m))
    for _ in range(rng.randint(8, 20)):
        s, t = rng.randint(1, 6), rng.randint(1, 6)
        R = lambda: rng.randint(-m, m)
        c = rng.random()
        if c < .12: ep.append(itxgen.fig(rng, s, rng.choice(["rect", "circ"]), m))
        elif c < .2:      # refused constructions and settings
            x, y = R(), R()
            ep.append(rng.choice([world.new(s, "rect", rng.randint(0, 4), x, y, x, y + 2), world.new(s, "rect", rng.randint(0, 4), x, y, x + 3, y), world.new(s, "circ", rng.randint(0, 4), x, y, 0), world.new(s, "circ", rng.randint(0, 4), x, y, -rng.randint(1, 3)), line("setr", s, 0), line("setr", s, -2)]))
        elif c < .3: ep.append(line("tr", s, R(), R(), rng.randint(0, 2)))
        elif c < .4: ep.append(line("mv", s, R(), R(), rng.randint(0, 2)))
        elif c < .5: ep.append(line("rot", s, rng.randint(0, 4), rng.randint(0, 1)))
        elif c < .57: ep.append(line("rotc", s, rng.randint(0, 4), R(), R(), rng.randint(0, 1)))
        elif c < .64: ep.append(line("roto", s, rng.randint(0, 4), rng.randint(0, 3)))
        elif c < .75: ep.append(line(rng.choice(["asg", "conv", "self"]), s, t))
        elif c < .8:
            if ext: ep.append(line("ext", s, t)); ext = False      # triples the size: once is enough
        elif c < .84: ep.append(line("bb", s, t))
        elif c < .88: ep.append(line("setr", s, rng.randint(1, 6)))
        elif c < .92: ep.append(line("setc", s, R(), R()))
        elif c < .98: ep.append(line("own", s, rng.randint(0, 14), *rng.choice([(3, 4), (-4, 3), (4, -3), (5, 12), (0, 2), (2, 0), (6, -8), (1, 1)])))
        else: ep.append(line("eq", s, t))
        ep += [line("obs", s)] if rng.random() < .7 else []
    return ep + [line("obs", i) for i in range(1, 7)]

def run(ck):
    d, f, l = world.build(ck, "RECT")
    ck.conform("world", "WorldTrace", [[x for x in e if x.split()[0] not in ("iar", "uni", "iou")] for e in world.sims(ck, "eq", "rect circ", ck.pick(500, 15000), 24)], [(d, 1.0), (f, 2.0, .4), (l, .5, .4)], what="model histories")
    ck.conform("world", "WorldTrace", [hist(ck.rng) for _ in range(ck.pick(1500, 30000))], [(d, 1.0), (f, 1.0, .5), (l, 4.0, .5), (d, .125, .3)], what="random histories")
