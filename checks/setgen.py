"""shared by the checks built on spec/Sets.tla: containers of points"""
from vlib import *
VARS = [D, F, L]
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 M = %d
 N = %d
 Fam = "%s"
 Stride = %d
 Off = %d
 D = %d
INVARIANTS %s Emit
CHECK_DEADLOCK FALSE
"""
def some_pts(rng, m, n):
    k = rng.random()
    if k < .12:      # aligned
        dx, dy = rng.randint(-2, 2), rng.randint(-2, 2)
        return [(dx * t, dy * t) for t in (rng.randint(-m // 2, m // 2) for _ in range(n))]
    if k < .25:      # on a circle
        c = [(3, 4), (4, 3), (-3, 4), (-4, 3), (3, -4), (4, -3), (-3, -4), (-4, -3), (5, 0), (0, 5), (-5, 0), (0, -5)]
        return [rng.choice(c) for _ in range(n)]
    if k < .4:       # two columns / rows with many ties
        return [(rng.choice([-m, 0, m]), rng.choice([-m, 0, m])) if rng.random() < .7 else (rng.randint(-m, m), rng.randint(-m, m)) for _ in range(n)]
    return [(rng.randint(-m, m), rng.randint(-m, m)) for _ in range(n)]
def query(rng, fam, m):
    r = rng.randint
    if fam == "hull": return [line("hull", r(0, 3))]
    if fam == "ext": return [line("ext", r(0, 4))]
    if fam == "near": return [line("near", r(-m, m), r(-m, m))]
    if fam == "bb": return [line("bbp", r(0, 2))]
    if fam == "mec": return [line("mec", r(0, 4))] + ([line("cir", r(2, 3), r(0, 9), r(0, 9), r(0, 9))] if rng.random() < .5 else [])
    k = rng.random()
    if k < .35: return [line("ins", 5, r(-m, m), r(-m, m), r(-m, m), r(-m, m))]
    if k < .7: return [line("ins", 6, r(-m, m), r(-m, m), r(0, m))]
    import polygen
    return [line("ins", 7, pts(polygen.simple_poly(rng, r(3, 9), m)))]
def hist(rng, fams):
    m, n = rng.choice([2, 4, 6, 9]), rng.choice([1, 2, 3, 4, 6, 10, 20, 40])
    ep = [line("begin", rng.randint(1, 10**6)), line("set", pts(some_pts(rng, m, n)))]
    for _ in range(rng.randint(3, 8)):
        f = rng.choice(fams)
        ep += query(rng, f, m)
        c = rng.random()
        if c < .15: ep.append("rev")
        elif c < .3: ep.append(line("rotl", rng.randint(0, 9)))
        elif c < .45: ep.append(line("dup", rng.randint(0, 9)))
        elif c < .6: ep.append(line("add", rng.randint(-m, m), rng.randint(-m, m)))
        elif c < .7: ep.append("pop")
        elif c < .8: ep.append("srt")
        elif c < .9: ep.append(line("set", pts(some_pts(rng, m, rng.randint(0, 12)))))
    return ep + query(rng, rng.choice(fams), m)
def run(ck, fams):
    for f in fams[1:]: run1(ck, (f,), 0)
    run1(ck, fams, 1)
def run1(ck, fams, rnd):
    inv = dict(hull="HullOK", ext="HullOK", mec="MecOK").get(fams[0], "")
    eps = []
    for m, n, st in ck.pick([(2, 4, 5), (1, 5, 3)], [(2, 5, 9), (3, 4, 7), (1, 7, 3)]):
        if inv == "HullOK" and n == 5 and m == 2: ck.model_check("SetsMC", CFG % ("enum", 2, 4, fams[0], 10**6, 1, 0, inv), what="all lists of 4 points on 0..2")
        eps += [lines_of(h) for h in ck.model_check("SetsMC", CFG % ("enum", m, n, fams[0], st, ck.seed % st, 0, "" if (inv == "HullOK" and n > 4) else inv),
                what="all lists of %d points on 0..%d (%s, emitting 1/%d)" % (n, m, fams[0], st))]
    ck.conform("sets", "SetsTrace", eps, [(D, 1.0), (F, 1.0, .3), (L, 0.25, .3)], what="enumerated lists of points")
    if not rnd: return
    sim = [lines_of(h) for h in ck.model_check("SetsMC", CFG % ("sim", 2, 0, fams[0], 1, 0, 14, ""),
           args=["-simulate", "num=%d" % ck.pick(60, 1500), "-depth", "15", "-seed", str(ck.seed)], workers=1, what="random histories (%s)" % fams[0])]
    ck.conform("sets", "SetsTrace", sim, [(D, 1.0), (F, 1.0, .5), (L, 4.0, .5)], what="histories of a container")
    ck.conform("sets", "SetsTrace", [hist(ck.rng, fams) for _ in range(ck.pick(1200, 25000))], [(D, 1.0), (F, 1.0, .5), (L, 4.0, .5), (D, .125, .3)], what="random containers")
