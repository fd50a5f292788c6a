"""P04: full-step rotations and mirrors are exact and composable."""
from vlib import *
import polygen, polyenum

def turn_history(rng):
    cl = rng.random() < .6
    ep = [line("begin", cl, not cl, cl)]
    for s in (1, 2, 3): ep.append(polygen.op_set(rng, s, polygen.any_poly(rng, 12, 9)))
    for _ in range(rng.randint(3, 12)):
        s = rng.randint(1, 3); k = rng.randint(0, 4)
        c = rng.random()
        one = (lambda k: line("rot", s, k, rng.randint(0, 1))) if c < .25 else \
              (lambda k, x=rng.randint(-12, 12), y=rng.randint(-12, 12): line("rotc", s, k, x, y, rng.randint(0, 2))) if c < .55 else \
              (lambda k, i=rng.randint(0, 6): line("roto", s, k, i))
        if c > .9: ep.append(line("tr", s, rng.randint(-9, 9), rng.randint(-9, 9), 0)); continue
        r = rng.random()
        if r < .2: ep += [one(0)] * 4 if c < .55 else [one(0)]
        elif r < .4: ep += [one(k), one({0: 1, 1: 0}.get(k, k))]
        else: ep.append(one(k))
        if rng.random() < .3: ep.append(line(rng.choice(polygen.QS), s))
        if rng.random() < .1: ep.append(line("eq", s, rng.randint(1, 3)))
    return ep + ["qobs 1", "qobs 2", "qobs 3"]

def run(ck):
    ck.build("polyline", [D, F, L])
    eps = []
    for w, h, n, st in ck.pick([(3, 3, 3, 1), (3, 2, 4, 3)], [(3, 3, 3, 1), (3, 3, 4, 2), (3, 2, 5, 7)]):
        eps += polyenum.enum(ck, "turn", w, h, n, st, "TurnOK")
    ck.conform("polyline", "PolylineTrace", eps, [(D, 1.0), (F, 1.0, .3), (L, 0.25, .3)], what="turns of enumerated figures")
    rnd = [turn_history(ck.rng) for _ in range(ck.pick(2000, 40000))]
    ck.conform("polyline", "PolylineTrace", rnd, [(D, 1.0), (F, 2.0, .5), (D, 0.125, .5), (L, 16., .3)], what="histories of turns")
