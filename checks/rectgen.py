"""shared by P11 and P12: pairs of rectangles in every relative position"""
from vlib import *
import world
def rect(rng, xs, ys):
    a, b = rng.sample(xs, 2); c, d = rng.sample(ys, 2)
    return (a, c, b, d)
def hist(rng, ops):
    m = rng.choice([4, 12, 40])
    # few distinct coordinates: shared edges and corners are frequent
    k = rng.choice([2, 3, 4, 7])
    xs = sorted(set(rng.randint(-m, m) for _ in range(k)) | {-m, m}); ys = sorted(set(rng.randint(-m, m) for _ in range(k)) | {0, m})
    ep = ["begin"] + [world.new(i, "rect", rng.randint(0, 4), *rect(rng, xs, ys)) for i in range(1, 5)]
    for _ in range(rng.randint(2, 5)):
        i, j = rng.randint(1, 4), rng.randint(1, 4)
        c = rng.random()
        if c < .2: ep.append(line("tr", i, rng.choice(xs) - rng.choice(xs), rng.choice(ys) - rng.choice(ys), rng.randint(0, 2)))
        elif c < .3: ep.append(line("rotc", i, rng.randint(0, 4), rng.choice(xs), rng.choice(ys), 0))
        elif c < .35: ep.append(line("roto", i, rng.randint(0, 4), rng.randint(0, 3)))
        elif c < .45: ep.append(line("mv", i, rng.choice(xs), rng.choice(ys), rng.randint(0, 2)))
        elif c < .55: ep.append(line(rng.choice(["asg", "conv", "ext"]), i, j))
        elif c < .7: ep.append(world.new(i, "rect", rng.randint(0, 4), *rect(rng, xs, ys)))
        a, b = rng.randint(1, 4), rng.randint(1, 4)
        for o in ops: ep += [line(o, a, b, rng.randint(0, 8)), line(o, b, a, rng.randint(0, 8)), line(o, 1, 2, 0)]
    return ep
def check(ck, ops):
    d, f, l = world.build(ck, "RECT")
    eps = []
    for m, st in ck.pick([(3, 3)], [(4, 1), (5, 7)]):
        eps += world.pairs(ck, "rect", "rect", "rect", m, st, "RectsOK")
    keep = lambda ep: [x for x in ep if x.split()[0] not in {"iar", "uni", "iou"} - set(ops)]
    ck.conform("world", "WorldTrace", [keep(e) for e in eps], [(d, 1.0), (f, 1.0, .3), (l, 0.25, .3)], what="enumerated pairs of rectangles")
    ck.conform("world", "WorldTrace", [hist(ck.rng, ops) for _ in range(ck.pick(1200, 30000))], [(d, 1.0), (f, 1.0, .5), (l, 4.0, .5), (d, .125, .3)], what="random rectangles and histories")
    ck.conform("world", "WorldTrace", [keep(e) for e in world.sims(ck, "rect", "rect cp seg", ck.pick(500, 12000))], [(d, 1.0), (f, 2.0, .4)], what="histories")
