"""P33: offset polygons and regular polygons."""
from vlib import *
import polygen
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 N = %d
 Box = %d
 Stride = %d
 Off = %d
 D = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INV = "SteinerOK SplitOK TurnOK SymOK InOK "
def offs(rng, k):
    o = []
    for _ in range(k):
        d = rng.choice([1, 2, 4, 3, 8])
        o.append(line("off", rng.choice([-1, 1]) * rng.randint(0 if rng.random() < .1 else 1, 5 if rng.random() < .7 else 20), d, rng.randint(0, 1)))
    return o
def rects(rng):
    """boundary of a union of cells, or any polyline"""
    m = rng.choice([3, 5, 8])
    if rng.random() < .25:
        q = polygen.any_poly(rng, m, 10)
    else:
        # histogram: a staircase above a base line, or grown by random bumps
        n = rng.randint(1, 6); k = rng.choice([1, 2, 3])
        h = [rng.randint(1, m) * k for _ in range(n)]
        lo = [-rng.randint(0, 3) * k if rng.random() < .5 else 0 for _ in range(n)]
        w = [rng.randint(1, 4) * k for _ in range(n)]
        xs = [0]
        for v in w: xs.append(xs[-1] + v)
        q = []
        for i in range(n): q += [(xs[i], h[i]), (xs[i+1], h[i])]
        for i in reversed(range(n)): q += [(xs[i+1], lo[i]), (xs[i], lo[i])]
        if rng.random() < .7: q = [p for j, p in enumerate(q) if p != q[j-1]]
        q = [p for j, p in enumerate(q) if p != q[j-1]]
        if rng.random() < .4: q = polygen.straight_fill(rng, q)
        if rng.random() < .5: q = q[::-1]
        s = rng.randrange(len(q)); q = q[s:] + q[:s]
    ep = ["begin", line("set", 0 if rng.random() < .05 else 1, pts(q))] + offs(rng, 4)
    for _ in range(2): ep += [line("rot", rng.randint(0, 4)) if rng.random() < .5 else line("tr", rng.randint(-9, 9), rng.randint(-9, 9))] + offs(rng, 3)
    return ep
def run(ck):
    V = [Variant("double"), Variant("float"), Variant("long double")]
    ck.build("offset", V)
    d, f, l = V
    st = ck.pick(7, 5)
    n = ck.pick(3, 4)
    eps = [lines_of(h) for h in ck.model_check("OffsetMC", CFG % ("enum", n, ck.pick(6, 6), st, ck.seed % st, 0, INV + "Emit"), what="all paths of up to %d edges (emitting 1/%d)" % (n, st))]
    ck.conform("offset", "OffsetTrace", eps, [(d, 1.0), (f, 1.0, .3), (l, .25, .3)], what="offsets of enumerated polygons")
    for k in (5, 7, 10):
        eps = ck.simulate("OffsetMC", CFG % ("sim", 0, 20, 1, 0, k, "SteinerOK Emit"), ck.pick(1500, 40000), 3 * k, "random polygons of %d edges" % k)
        ck.conform("offset", "OffsetTrace", eps, [(d, 1.0), (d, 16.0, .3), (l, .5, .3)], what="random polygons of %d edges" % k)
    ck.conform("offset", "OffsetTrace", [rects(ck.rng) for _ in range(ck.pick(1200, 30000))], [(d, 1.0), (f, 1.0, .3), (l, 2.0, .3), (d, .125, .3)], what="rectilinear polygons")
    eps = []
    for n in list(range(-1, 42)) + [60, 97]:
        eps.append(["begin"] + [line("rcp", r, n, ck.rng.randint(0, 2)) for r in (1, 2, ck.rng.randint(3, 19), 20, 0, -2)])
    ck.conform("offset", "OffsetTrace", eps, [(d, 1.0), (f, 1.0), (l, 1.0), (d, .25)], what="regular polygons")
