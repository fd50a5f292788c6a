"""P03: minimizing removes exactly the redundant vertices."""
from vlib import *
import polygen, polyenum

def min_history(rng):
    cl = rng.random() < .6
    ep = [line("begin", cl, cl, not cl)]
    c = rng.random()
    m = rng.choice([4, 9, 30])
    if c < .5: q = polygen.straight_fill(rng, polygen.any_poly(rng, m, 10), cl)
    elif c < .8: q = polygen.rectilinear(rng, rng.randint(3, 20), m)
    else:        # runs along one of a few directions
        d = [(1, 0), (0, 1), (1, 1), (2, 1), (1, -3), (-1, 0), (0, -1), (-2, 3)]
        q = [(0, 0)]
        for _ in range(rng.randint(2, 8)):
            v = rng.choice(d)
            for _ in range(rng.randint(1, 4)):
                k = rng.randint(1, 2)
                q.append((q[-1][0] + k*v[0], q[-1][1] + k*v[1]))
        if q[0] == q[-1]: q.pop()
    if any(abs(x) > 60 or abs(y) > 60 for x, y in q) or len(q) < 2 or any(q[i] == q[i-1] for i in range(len(q))): return min_history(rng)
    ep.append(polygen.op_set(rng, 1, q))
    if rng.random() < .5: ep.append(line("qobs", 1))
    if rng.random() < .4: ep.append(line("rot", 1, rng.randint(0, 4), 0))
    ep += ["cpy 2 1", "min 1"]
    if rng.random() < .5: ep.append("qobs 1")
    ep += ["min 1", "qobs 1", "eq 1 2", "min 2", "eq 2 1", polygen.op_set(rng, 3, q), "min 3", "qobs 3"]
    return ep

def run(ck):
    ck.build("polyline", [D, F, L])
    eps = []
    for w, h, n, st in ck.pick([(3, 3, 3, 1), (3, 3, 4, 4), (4, 2, 5, 13), (3, 3, 5, 29)], [(3, 3, 3, 1), (3, 3, 4, 1), (4, 2, 5, 1), (3, 3, 5, 3), (4, 2, 6, 17)]):
        eps += polyenum.enum(ck, "min", w, h, n, st, "MinOK")
    ck.conform("polyline", "PolylineTrace", eps, [(D, 1.0), (F, 1.0, .3), (L, 0.125, .3)], what="minimization of enumerated figures")
    rnd = [min_history(ck.rng) for _ in range(ck.pick(2500, 40000))]
    ck.conform("polyline", "PolylineTrace", rnd, [(D, 1.0), (F, 1.0, .5), (D, 32.0, .5), (L, 0.125, .3)], what="larger figures with runs of redundant vertices")
