"""random scenarios for intersections"""
from vlib import *
import world, polygen
PY = [(3, 4), (4, 3), (-3, 4), (3, -4), (5, 0), (0, 5), (0, -5), (-5, 0), (-4, -3)]
def fig(rng, s, kind, m):
    R = lambda: (rng.randint(-m, m), rng.randint(-m, m))
    while True:
        a, b = R(), R()
        if rng.random() < .3: b = (a[0], b[1]) if rng.random() < .5 else (b[0], a[1])
        if a == b: continue
        if kind in ("line", "seg", "oseg"): return world.new(s, kind, rng.randint(0, 2), a, b)
        if kind == "rect":
            if a[0] == b[0] or a[1] == b[1]: continue
            return world.new(s, kind, rng.randint(0, 4), a, b)
        if kind == "circ": return world.new(s, kind, rng.randint(0, 4), a, rng.choice([5, rng.randint(1, m)]))
        if kind == "pt": return world.new(s, kind, rng.randint(0, 2), a)
        q = polygen.any_poly(rng, m, rng.choice([4, 8, 12]))
        return world.new(s, kind, rng.randint(0, 1), pts(q))
def hist(rng, ka, kb, m=9, fam=("itx",)):
    ep = ["begin"]
    for i in range(1, 7): ep.append(fig(rng, i, rng.choice(ka if i % 2 else kb), m))
    for _ in range(rng.randint(2, 5)):
        s, t = rng.randint(1, 6), rng.randint(1, 6)
        c = rng.random()
        if c < .35: ep.append(fig(rng, s, rng.choice(ka if s % 2 else kb), m))
        elif c < .5: ep.append(line("tr", s, rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(0, 2)))
        elif c < .6: ep.append(line("rot", s, rng.randint(0, 4), 0))
        elif c < .7: ep.append(line("asg", s, t) if (s - t) % 2 == 0 else line("eq", s, t))
        for i in (1, 3, 5):
            for j in (2, 4, 6):
                if rng.random() < .5: 
                    for q in fam: ep += [line(q, i, j, rng.randint(0, 1)), line(q, j, i, 0)]
    return ep
