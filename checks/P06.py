"""P06: a point is inside a polygon exactly when it is in the open interior."""
import math
from vlib import *
import world, polygen, polyenum

def star(rng):
    """vertices in all the directions in which the centre is joined to the (split) sides of the bounding box"""
    lev = rng.choice([[0], [0, 2], [0, 2, 1, 3]])
    ring = sorted({(x * a, y * b) for v in lev for x, y in ((4, v), (v, 4)) for a in (1, -1) for b in (1, -1)}, key=lambda p: math.atan2(p[1], p[0]))
    out = []
    for x, y in ring:
        t = 3 if 0 in (x, y) else rng.randint(1, 3)
        out.append((x * t, y * t))
    return out

def hist(rng):
    m = rng.choice([4, 9, 14])
    c = rng.random()
    if c < .35: q = polygen.rectilinear(rng, rng.randint(4, 14), m)
    else: q = polygen.simple_poly(rng, rng.randint(3, 14), m)
    if rng.random() < .3: q = polygen.straight_fill(rng, q)
    ctr = rng.random() < .12
    if ctr: q = star(rng); m = 12
    ep = ["begin"]
    if ctr: ep += [world.new(1, "cp", 0, pts(q)), world.new(2, "pt", 0, (0, 0)), line("ins", 2, 1, rng.randint(0, 2)), line("ing", 1, -2, -2, 5, 1, 1, rng.randint(0, 2))]
    for _ in range(rng.randint(1, 3)):
        ep.append(world.new(1, "cp", rng.randint(0, 1), pts(q)))
        if rng.random() < .3: ep.append(line("tr", 1, rng.randint(-20, 20), rng.randint(-20, 20), 0))
        k = rng.random()
        if k < .5: ep.append(line("ing", 1, -m - 1, -m - 1, 2 * m + 3, 1, 1, rng.randint(0, 2)))
        elif k < .8:
            x, y = rng.choice(q)
            ep.append(line("ing", 1, 4 * x - 6, 4 * y - 6, 13, 1, 4, rng.randint(0, 2)))
        else:
            x, y = rng.choice(q)
            ep.append(line("ing", 1, 2 * x - 8, 2 * y - 8, 15, rng.randint(1, 3), 2, rng.randint(0, 2)))
        for _ in range(3):
            p = rng.choice(q) if rng.random() < .4 else (rng.randint(-m, m), rng.randint(-m, m))
            ep += [world.new(2, "pt", 0, p), line("ins", 2, 1, rng.randint(0, 2))]
        k = rng.randrange(len(q))
        q = q[k:] + q[:k]
        if rng.random() < .5: q = q[::-1]
    return ep

def run(ck):
    d, f, l = world.build(ck, "INS")
    eps = []
    for w, h, n, st in ck.pick([(3, 3, 3, 1), (3, 3, 4, 1), (3, 3, 5, 3), (4, 2, 5, 7)], [(4, 4, 3, 1), (3, 3, 4, 1), (3, 3, 5, 1), (4, 4, 4, 3), (4, 3, 5, 11), (3, 2, 6, 1), (3, 3, 6, 29)]):
        eps += polyenum.enum(ck, "in", w, h, n, st, "AreaOK")
    ck.conform("world", "WorldTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, 0.25, .3)], what="enumerated polygons x grids of points")
    ck.conform("world", "WorldTrace", [hist(ck.rng) for _ in range(ck.pick(500, 12000))], [(d, 1.0), (f, 1.0, .5), (l, 4.0, .5), (d, .125, .3)], what="larger polygons x grids of points")
