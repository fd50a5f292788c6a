"""P05: polygon measures and classification."""
from vlib import *
import polygen, polyenum

def cls_history(rng):
    c = rng.random()
    m = rng.choice([3, 9, 40])
    if c < .2:        # convex chain around a circle-like shape, maybe with straight vertices
        import math
        n = rng.randint(3, 16)
        q = list(dict.fromkeys((round(m*math.cos(6.2832*i/n)), round(m*math.sin(6.2832*i/n))) for i in range(n)))
        if len(q) < 3: q = [(0, 0), (m, 0), (0, m)]
        if rng.random() < .4: q = polygen.straight_fill(rng, q)
        if rng.random() < .3:
            i = rng.randrange(len(q)); q[i] = (q[i][0] + rng.randint(-1, 1), q[i][1] + rng.randint(-1, 1))
            q = [p for k, p in enumerate(q) if p != q[k-1]]
            if len(q) < 3: q = [(0, 0), (m, 0), (0, m)]
    else: q = polygen.any_poly(rng, m, rng.choice([6, 12, 24]))
    ep = [line("begin", 1, 1, 0), polygen.op_set(rng, 1, q)]
    ep += rng.sample(["qobs 1", "qarea 1", "qconvex 1", "qsimple 1", "qcen 1"], rng.randint(1, 3))
    k = rng.randrange(len(q))
    r = q[k:] + q[:k]
    ep += [polygen.op_set(rng, 2, r if rng.random() < .5 else r[::-1]), "qobs 2", polygen.op_set(rng, 3, q), "qobs 3"]
    if rng.random() < .3: ep += [line("tr", 1, rng.randint(-20, 20), rng.randint(-20, 20), 0), "qobs 1"]
    return ep

def run(ck):
    ck.build("polyline", [D, F, L])
    eps = []
    for w, h, n, st in ck.pick([(3, 3, 3, 1), (3, 3, 4, 2), (3, 3, 5, 13)], [(3, 3, 3, 1), (4, 4, 3, 1), (3, 3, 4, 1), (3, 3, 5, 2), (3, 2, 6, 5), (4, 3, 5, 31)]):
        eps += polyenum.enum(ck, "cls", w, h, n, st, "StartOK AreaOK")
    ck.conform("polyline", "PolylineTrace", eps, [(D, 1.0), (F, 1.0, .3), (L, 0.125, .3)], what="classification of enumerated figures")
    rnd = [cls_history(ck.rng) for _ in range(ck.pick(2500, 40000))]
    ck.conform("polyline", "PolylineTrace", rnd, [(D, 1.0), (F, 1.0, .5), (D, 32.0, .5), (L, 0.125, .3)], what="larger polygons")
