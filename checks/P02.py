"""P02: polyline equality means 'same figure'; comparing changes no figure."""
from vlib import *
import polygen, polyenum

def eq_history(rng):
    q = polygen.any_poly(rng, rng.choice([3, 9]), 12)
    cl = rng.random() < .6
    ep = [line("begin", cl, cl, cl)]
    n = len(q)
    k = rng.randrange(n)
    p = q[k:] + q[:k] if cl else list(q)
    if rng.random() < .5: p = p[::-1]
    c = rng.random()
    if c < .25:
        i, j = rng.randrange(n), rng.randrange(n)
        p[i], p[j] = p[j], p[i]
    elif c < .4:
        i = rng.randrange(n)
        p[i] = (p[i][0] + rng.choice([-1, 0, 1]), p[i][1] + rng.choice([-1, 1]))
    ep += [polygen.op_set(rng, 1, q), polygen.op_set(rng, 2, p), polygen.op_set(rng, 3, rng.choice([p, q]))]
    for _ in range(rng.randint(3, 14)):
        s, t = rng.randint(1, 3), rng.randint(1, 3)
        c = rng.random()
        if c < .6: ep.append(line(rng.choice(["eq", "eq", "ne"]), s, t))
        elif c < .75: ep.append(line(rng.choice(polygen.QS), s))
        elif c < .85:
            a = line("tr", "%d", rng.randint(-3, 3), rng.randint(-3, 3), 0)
            ep += [a % 1, a % 2] + ([a % 3] if rng.random() < .5 else [])
        elif c < .92:
            ep.append(rng.choice([line("rot", s, rng.randint(0, 4), 0), line("rotc", s, rng.randint(0, 4), 1, 2, 0),
                line("mv", s, rng.randint(-3, 3), 1, 0), line("hom", s, -1, 0, 2, 0, 1, 0, rng.randint(0, 1)), line("edit", s, rng.randint(0, 5), rng.randint(-3, 3), 2)]))
            t = s % 3 + 1           # the same figure built anew must equal it
            ep += [line("sib", t, s, rng.randint(0, 9), rng.randint(0, 1), rng.randint(0, 1)), line(rng.choice(["eq", "ne"]), *rng.choice([(s, t), (t, s)]))]
        elif c < .96: ep.append(line("cpy", s, t))
        else: ep.append(line("min", s))
    return ep + ["eq 1 2", "eq 2 3", "eq 3 1", "qobs 1", "qobs 2", "qobs 3"]

def run(ck):
    ck.build("polyline", [D, F, L])
    eps = []
    for w, h, n, st in ck.pick([(3, 3, 3, 2), (3, 3, 4, 25), (3, 2, 5, 29)], [(3, 3, 3, 1), (3, 3, 4, 1), (3, 2, 5, 2), (3, 2, 6, 31), (3, 3, 5, 37)]):
        eps += polyenum.enum(ck, "eq", w, h, n, st, "EqOK StartOK")
    ck.conform("polyline", "PolylineTrace", eps, [(D, 1.0), (F, 1.0, .3), (L, 0.25, .3)], what="comparisons of enumerated figures")
    rnd = [eq_history(ck.rng) for _ in range(ck.pick(1500, 30000))]
    ck.conform("polyline", "PolylineTrace", rnd, [(D, 1.0), (F, 4.0, .5), (L, 0.5, .5)], what="comparison histories")
