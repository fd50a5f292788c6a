"""P23: numeric types and build options: the same specifications accept every configuration, and
configurations that only switch an option are compared with each other event by event."""
from vlib import *
import world, itxgen, rectgen, lineset, setgen, homog, polygen, P05, P22, P25
H = "HOMOG2D_"
def V(name, ft="double", gt=None, *defs): return lambda q=(): Variant(ft, gt, defs=list(defs) + list(q), name=name + "".join(q))
BASE = V("base")
SAME = [V("speed_rtp", "double", None, H+"OPTIMIZE_SPEED", H+"ENABLE_PRTP", H+"ENABLE_VRTP"), V("nochecks", "double", None, H+"NOCHECKS", H+"NOWARNINGS")]
TYPES = [V("il", "double", "long double", H+"INUMTYPE=long double"), V("ll", "long double", "double", H+"INUMTYPE=long double"),
         V("fl", "float", "long double"), V("lf", "long double", "float", H+"OPTIMIZE_SPEED")]
def families(ck):
    n = lambda a, b: ck.pick(a, b)
    w = lambda q, f: ("world", ("Q_" + q,), "WorldTrace", f)
    ks = ["line", "seg", "oseg", "circ", "rect", "cp", "op"]
    yield w("ITX", [itxgen.hist(ck.rng, ks, ks) for _ in range(n(250, 4000))])
    yield w("INS", world.sims(ck, "ins", "pt seg rect circ cp", n(150, 3000)))
    yield w("RECT", [rectgen.hist(ck.rng, ("iar", "uni", "iou")) for _ in range(n(250, 4000))])
    yield w("DST", world.sims(ck, "dst", "pt line seg oseg cp op", n(150, 3000)))
    yield ("polyline", (), "PolylineTrace", [P05.cls_history(ck.rng) for _ in range(n(400, 6000))])
    yield ("lines", (), "LinesTrace", lineset.sims(ck, n(200, 4000), 30, "all"))
    yield ("sets", (), "SetsTrace", [setgen.hist(ck.rng, ("hull", "ext", "mec", "near", "bb")) for _ in range(n(250, 4000))])
    yield ("homog", (), "HomogTrace", homog.sims(ck, n(150, 3000), 12, 40, "img"))
    yield ("ellipse", (), "EllipseTrace", ck.simulate("EllipseMC", P22.CFG % ("sim", 1, 0, 20, "Sound"), n(200, 4000), 22, "random ellipses"))
def run(ck):
    fam = list(families(ck))
    for h, q, m, eps in fam:
        ck.build(h, [BASE(q)] + [v(q) for v in SAME] + [v(q) for v in TYPES])
    ck.builds()
    def one(f):
        h, q, m, eps = f
        what = h + "".join(q)
        ck.agree(h, eps, BASE(q), [v(q) for v in (SAME if h != "ellipse" else SAME[1:])], what=what)
        ck.conform(h, m, eps, [(BASE(q), 1.0)] + [(v(q), 1.0) for v in TYPES] + ([(SAME[0](q), 1.0)] if h == "ellipse" else []), what=what)
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(one, fam))
