"""P07: 'is inside' between primitives means strict containment."""
from vlib import *
import world, polygen

def near(rng, q, m):
    """a figure likely to be close to the boundary of q"""
    a = rng.choice(q)
    return (a[0] + rng.randint(-2, 2), a[1] + rng.randint(-2, 2))

def rnd_hist(rng):
    ep = ["begin"]
    m = rng.choice([8, 14])
    q = polygen.simple_poly(rng, rng.randint(3, 12), m)
    if rng.random() < .4: q = polygen.rectilinear(rng, rng.randint(4, 12), m)
    if rng.random() < .2: q = [(-m, -m), (m, -m), (m, m), (-m, m)]
    ep.append(world.new(1, "cp", rng.randint(0, 1), pts(q)))
    ep.append(world.new(2, "rect", rng.randint(0, 4), -rng.randint(2, m), -rng.randint(2, m), rng.randint(2, m), rng.randint(2, m)))
    ep.append(world.new(3, "circ", rng.randint(0, 4), rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(3, m)))
    big = (1, 2, 3)
    for _ in range(rng.randint(3, 7)):
        c = rng.random()
        p = near(rng, q, m) if rng.random() < .5 else (rng.randint(-m, m), rng.randint(-m, m))
        p2 = near(rng, q, m) if rng.random() < .3 else (p[0] + rng.randint(-4, 4), p[1] + rng.randint(-4, 4))
        if c < .15: ep.append(world.new(4, "pt", 0, p))
        elif c < .35 and p != p2: ep.append(world.new(4, rng.choice(["seg", "oseg"]), 0, p, p2))
        elif c < .55 and p[0] != p2[0] and p[1] != p2[1]: ep.append(world.new(4, "rect", 0, p, p2))
        elif c < .75: ep.append(world.new(4, "circ", 0, p, rng.randint(1, 5)))
        else:
            k = rng.random()
            if k < .3: w = q[1:] + q[:1] if rng.random() < .5 else [(x, y) for x, y in reversed(q)]
            elif k < .6: w = [((x + p[0]) // 2, (y + p[1]) // 2) for x, y in q]
            else: w = polygen.simple_poly(rng, rng.randint(3, 6), 4); w = [(x + p[0] // 2, y + p[1] // 2) for x, y in w]
            w = [a for i, a in enumerate(w) if a != w[i - 1]]
            if len(w) < 3: continue
            ep.append(world.new(4, rng.choice(["cp", "cp", "op"]), 0, pts(w)))
        for b in big: ep += [line("ins", 4, b, rng.randint(0, 2)), line("ins", b, 4, 0)]
        if rng.random() < .3:
            k = rng.randint(0, 4)
            ep += [line("rotc", s, k, 1, -1, 0) for s in (1, 2)]
            q = None or q
    ep += ["ins 1 2 0", "ins 2 1 0", "ins 1 3 0", "ins 3 1 1", "ins 2 3 1", "ins 3 2 0", "ins 1 1 0", "ins 2 2 0", "ins 3 3 0", "ins 4 4 0"]
    return ep

def run(ck):
    d, f, l = world.build(ck, "INS")
    eps = []
    for kf, kg, m, st in ck.pick([("pt seg circ rect", "cp", 3, 101), ("pt line seg oseg rect circ cp op", "rect circ op", 3, 211), ("cp op", "cp", 2, 53)],
                                 [("pt seg circ rect", "cp", 3, 5), ("pt line seg oseg rect circ cp op", "rect circ op line seg", 3, 11), ("rect circ cp op", "cp", 4, 29)]):
        eps += world.pairs(ck, "ins", kf, kg, m, st, "InsOK")
    ck.conform("world", "WorldTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, 0.25, .3)], what="is-inside on enumerated pairs")
    ck.conform("world", "WorldTrace", world.sims(ck, "ins", "pt line seg oseg rect circ cp op", ck.pick(500, 12000)), [(d, 1.0), (f, 2.0, .4)], what="histories with is-inside queries")
    ck.conform("world", "WorldTrace", [rnd_hist(ck.rng) for _ in range(ck.pick(700, 15000))], [(d, 1.0), (f, 1.0, .5), (l, 4.0, .5), (d, .125, .3)], what="larger figures")
