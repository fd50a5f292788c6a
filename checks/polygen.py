"""Scenario generators for polylines (larger than what TLC enumerates)."""
from vlib import line, pts

def rnd_pts(rng, n, m, closed=True):
    q = []
    while len(q) < n:
        p = (rng.randint(-m, m), rng.randint(-m, m))
        if q and (p == q[-1]): continue
        if len(q) == n - 1 and p == q[0]: continue
        q.append(p)
    return q

def rectilinear(rng, n, m):
    q = [(rng.randint(-m, m), rng.randint(-m, m))]
    h = rng.random() < .5
    while len(q) < n:
        x, y = q[-1]
        if h: x = rng.randint(-m, m)
        else: y = rng.randint(-m, m)
        if rng.random() < .7: h = not h
        if (x, y) != q[-1]: q.append((x, y))
    if q[0] == q[-1]: q.pop()
    return q

def simple_poly(rng, n, m):
    """star-shaped-ish simple polygon by 2-opt of a random point set (may keep collinear runs)"""
    q = list(dict.fromkeys((rng.randint(-m, m), rng.randint(-m, m)) for _ in range(n)))
    if len(q) < 3: return [(0, 0), (m, 0), (0, m)]
    def cr(o, a, b): return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])
    def on(p, a, b): return cr(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
    def touch(a, b, c, d):
        s = lambda v: (v > 0) - (v < 0)
        o1, o2, o3, o4 = s(cr(a, b, c)), s(cr(a, b, d)), s(cr(c, d, a)), s(cr(c, d, b))
        return (o1*o2 < 0 and o3*o4 < 0) or on(c, a, b) or on(d, a, b) or on(a, c, d) or on(b, c, d)
    for _ in range(400):
        n = len(q)
        if n < 3: break
        bad = None
        for i in range(n):
            for j in range(i + 2, n):
                if i == 0 and j == n - 1: continue
                if touch(q[i], q[(i+1) % n], q[j], q[(j+1) % n]):
                    bad = (i, j); break
            if bad: break
        if not bad:
            return q
        i, j = bad
        if rng.random() < .8: q[i+1:j+1] = reversed(q[i+1:j+1])
        else: q.pop(j)
    return [(0, 0), (m, 1), (2, m)]

def straight_fill(rng, q, closed=True):
    """insert redundant vertices on some edges"""
    out = []
    n = len(q)
    for i in range(n):
        a, b = q[i], q[(i+1) % n]
        out.append(a)
        if i == n - 1 and not closed: break
        from math import gcd
        g = gcd(abs(a[0]-b[0]), abs(a[1]-b[1]))
        if g > 1 and rng.random() < .5:
            ks = sorted(rng.sample(range(1, g), min(g-1, rng.randint(1, 3))))
            out += [(a[0] + (b[0]-a[0])//g*k, a[1] + (b[1]-a[1])//g*k) for k in ks]
    return out

def any_poly(rng, m=9, nmax=14):
    k = rng.random()
    n = rng.randint(3, nmax)
    if k < .2: q = rnd_pts(rng, n, m)
    elif k < .45: q = rectilinear(rng, n, m)
    else: q = simple_poly(rng, n, m)
    if rng.random() < .35: q = straight_fill(rng, q)
    if rng.random() < .08 and len(q) > 2:      # a spike
        i = rng.randrange(len(q))
        q = q[:i+1] + [(q[i][0] + rng.randint(1, 3), q[i][1] + rng.randint(-3, 3)), q[i]] + q[i+1:]
    if rng.random() < .5: q = q[::-1]
    s = rng.randrange(len(q))
    return q[s:] + q[:s]

MODS = ["tr", "mv", "rot", "rotc", "roto", "min", "clr", "set", "set", "setrect", "para", "hom", "asg", "cpy", "swp", "conv", "edit", "sib"]
QS = ["qn", "qlen", "qarea", "qsimple", "qconvex", "qcen", "qbb", "qsegs", "qobs"]

def op_set(rng, s, q): return line("set", s, rng.randint(0, 4), pts(q))

def history(rng, length, m=9, weights=None):
    ep = [line("begin", 1, rng.choice([0, 1]), 0)]
    for s in (1, 2, 3):
        ep.append(op_set(rng, s, any_poly(rng, m)))
    R = lambda a, b: rng.randint(a, b)
    big = 0
    for _ in range(length):
        s, t = R(1, 3), R(1, 3)
        if rng.random() < .45:
            ep.append(line(rng.choice(QS), s)); continue
        if rng.random() < .15:
            ep.append(line(rng.choice(["eq", "ne"]), s, t)); continue
        o = rng.choice(weights or MODS)
        if o == "hom" and (big >= 2): o = "rot"
        if o == "hom": big += 1
        ep.append({
            "tr": lambda: line("tr", s, R(-m, m), R(-m, m), R(0, 2)),
            "mv": lambda: line("mv", s, R(-m, m), R(-m, m), R(0, 2)),
            "rot": lambda: line("rot", s, R(0, 4), R(0, 1)),
            "rotc": lambda: line("rotc", s, R(0, 4), R(-m, m), R(-m, m), R(0, 2)),
            "roto": lambda: line("roto", s, R(0, 4), R(0, 8)),
            "min": lambda: line("min", s), "clr": lambda: line("clr", s),
            "set": lambda: op_set(rng, s, any_poly(rng, m) if rng.random() < .9 else [(1, 1), (1, 1), (2, 5)][:R(1, 3)]),
            "setrect": lambda: line("setrect", s, R(0, 1), R(-m, m), R(-m, m), R(-m, m), R(-m, m)),
            "para": lambda: line("para", s, 3, [R(-m, m) for _ in range(6)]),
            "hom": lambda: line("hom", s, rng.choice([(0, -1, 3, 1, 0, -2), (1, 1, 0, 0, 1, 2), (-1, 0, 1, 0, 1, 0), (1, 0, 4, 1, -1, 0), (2, 0, 0, 0, 1, 0)]), R(0, 1)),
            "sib": lambda: line("sib", s, t, R(0, 9), R(0, 1), R(0, 1)), "asg": lambda: line("asg", s, t), "cpy": lambda: line("cpy", s, t), "swp": lambda: line("swp", s, t), "conv": lambda: line("conv", s, t),
            "edit": lambda: line("edit", s, R(0, 8), R(-m, m), R(-m, m)),
        }[o]())
        if rng.random() < .15:      # the same figure built anew must equal it
            t = s % 3 + 1
            ep += [line("sib", t, s, R(0, 9), R(0, 1), R(0, 1)), line(rng.choice(["eq", "ne"]), *rng.choice([(s, t), (t, s)]))]
    return ep + ["qobs 1", "qobs 2", "qobs 3"]
