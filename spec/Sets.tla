-------------------------------- MODULE Sets --------------------------------
(***************************************************************************)
(* A container of points (a sequence, possibly with repetitions) and a       *)
(* circle object.  Modifiers rearrange the container; queries compute the    *)
(* convex hull, extreme points, nearest/farthest points, bounding box, the   *)
(* points inside an area, and the smallest enclosing circle.                 *)
(***************************************************************************)
EXTENDS Geom
W == INSTANCE World
InitSt == [ p |-> <<>>, c |-> <<0, 0, S>> ]          \* c: as last observed (default: unit circle)
Pts(a, from) == [ i \in 1..a[from] |-> << a[from + 2*i - 1], a[from + 2*i] >> ]
Pos(p) == { p[i] : i \in 1..Len(p) }
Aligned(P) == \A x, y, z \in P : Cross(x, y, z) = 0
Ins(q, x) == Append(q, x)

Effect(p, e) ==
  LET a == e.a
  IN CASE e.op = "set" -> Pts(a, 1)
       [] e.op = "add" -> Append(p, <<a[1], a[2]>>)
       [] e.op = "pop" -> IF p = <<>> THEN p ELSE SubSeq(p, 1, Len(p)-1)
       [] e.op = "rev" -> RevSeq(p)
       [] e.op = "rotl" -> IF p = <<>> THEN p ELSE RotSeq(p, a[1] % Len(p))
       [] e.op = "dup" -> IF p = <<>> THEN p ELSE Append(p, p[(a[1] % Len(p)) + 1])
       [] e.op = "srt" -> SortSeq(p, LAMBDA x, y : Less(x, y))
       [] OTHER -> p
Modifiers == {"set","add","pop","rev","rotl","dup","srt"}
ValidPoly(q) == /\ Len(q) # 1 /\ (Len(q) > 1 => \A i \in 1..Len(q) : q[i] # q[Nxt(i,Len(q))])

(*------------------------------- hull ------------------------------------*)
\* w: the strictly convex polygon around P with vertices in P -- there is exactly one up to start and direction
IsHull(w, P) ==
  /\ Len(w) >= 3 /\ \A i \in 1..Len(w) : w[i] \in P
  /\ Cardinality(Pos(w)) = Len(w)
  /\ \E s \in {-1, 1} : \A i \in 1..Len(w) :
        LET a == w[i]  b == w[Nxt(i, Len(w))]
        IN /\ \A x \in P : Orient(a, b, x) * s >= 0
           /\ \A j \in 1..Len(w) : w[j] \in {a, b} \/ Orient(a, b, w[j]) * s > 0
\* extreme points by definition: not in the hull of the others
InTri(x, a, b, c) == LET o1 == Orient(a,b,x) o2 == Orient(b,c,x) o3 == Orient(c,a,x)
                     IN Orient(a,b,c) # 0 /\ ((o1 >= 0 /\ o2 >= 0 /\ o3 >= 0) \/ (o1 <= 0 /\ o2 <= 0 /\ o3 <= 0))
Extreme(P) == { x \in P : LET Q == P \ {x}
                          IN ~(\E a, b \in Q : OnSeg(x, a, b)) /\ ~(\E a, b, c \in Q : InTri(x, a, b, c)) }
HullOk(p, e) ==
  LET P == Pos(p)
  IN IF e.a[1] > 0 /\ ~ValidPoly(p) THEN e.r = "skip"
     ELSE /\ e.r = "ok"
          /\ IF Cardinality(P) < 3 \/ Aligned(P)
             THEN \* nothing is promised on the shape, but it never invents a point
                  e.hT \/ (IntegralPts(e.h) /\ Pos(RoundPts(e.h)) \subseteq P)
             ELSE /\ ~e.hT /\ IntegralPts(e.h)
                  /\ LET w == RoundPts(e.h)
                     IN /\ IsHull(w, P) /\ e.cv /\ e.sz = Len(w)
                        /\ Near(e.ar, Abs(Area2(w)) * (S \div 2), 5)

(*--------------------------- extreme points -------------------------------*)
Top(P) == LET m == { x \in P : \A y \in P : y[2] <= x[2] } IN CHOOSE x \in m : \A y \in m : x[1] <= y[1]
Bot(P) == LET m == { x \in P : \A y \in P : y[2] >= x[2] } IN CHOOSE x \in m : \A y \in m : x[1] <= y[1]
Lef(P) == LET m == { x \in P : \A y \in P : y[1] >= x[1] } IN CHOOSE x \in m : \A y \in m : x[2] <= y[2]
Rig(P) == LET m == { x \in P : \A y \in P : y[1] <= x[1] } IN CHOOSE x \in m : \A y \in m : x[2] <= y[2]
ExtOk(p, e) ==
  IF e.a[1] >= 3 /\ ~ValidPoly(p) THEN e.r = "skip"
  ELSE IF p = <<>> THEN e.r = "ok" /\ e.tT /\ e.bT /\ e.lT /\ e.riT
  ELSE LET P == Pos(p)
       IN /\ e.r = "ok" /\ ~e.tT /\ ~e.bT /\ ~e.lT /\ ~e.riT
          /\ PtOk(e.t, Top(P)) /\ PtOk(e.b, Bot(P)) /\ PtOk(e.l, Lef(P)) /\ PtOk(e.ri, Rig(P))
          /\ Len(e.i) = 4 =>
               /\ \A k \in 1..4 : e.i[k] \in 0..(Len(p)-1)
               /\ p[e.i[1]+1] = Top(P) /\ p[e.i[2]+1] = Bot(P) /\ p[e.i[3]+1] = Lef(P) /\ p[e.i[4]+1] = Rig(P)

(*----------------------------- nearest ------------------------------------*)
NearOk(p, e) ==
  LET q == <<e.a[1], e.a[2]>>
      C == { i \in 1..Len(p) : p[i] # q }
      d == [ i \in 1..Len(p) |-> D2(p[i], q) ]
      min(i) == i+1 \in C /\ \A j \in C : d[i+1] <= d[j]
      max(i) == i+1 \in C /\ \A j \in C : d[i+1] >= d[j]
  IN IF Len(p) < 2 THEN e.nT /\ e.fT /\ e.nfT
     ELSE /\ ~e.nT /\ ~e.fT /\ ~e.nfT
          /\ e.n \in 0..(Len(p)-1) /\ e.f \in 0..(Len(p)-1) /\ e.nf[1] \in 0..(Len(p)-1) /\ e.nf[2] \in 0..(Len(p)-1)
          /\ C # {} => min(e.n) /\ max(e.f) /\ min(e.nf[1]) /\ max(e.nf[2])

(*------------------------- points inside an area --------------------------*)
AreaFig(a) == CASE a[1] = 5 -> LET m == MkRect(a[2],a[3],a[4],a[5]) IN W!FigOfRect(m)
                [] a[1] = 6 -> W!Fig("circ", << <<a[2],a[3]>> >>, a[4])
                [] a[1] = 7 -> W!Fig("cp", Pts(a, 2), 0)
InsideOk(p, e) ==
  LET g == AreaFig(e.a)
  IN IF ~W!Valid(g) THEN e.vT
     ELSE \/ g.k = "cp" /\ ~SimplePoly(g.p)
          \/ ~e.vT /\ PtsOk(e.v, SelectSeq(p, LAMBDA x : W!PtIn(x, g)))

(*--------------------------- bounding box ---------------------------------*)
BBpOk(p, e) == IF Len(p) < 2 \/ ~HasArea(BBox(p)) THEN e.bbT ELSE ~e.bbT /\ RectOk(e.bb, BBox(p))

(*---------------------- smallest enclosing circle -------------------------*)
\* values in 1/1000; slack of two units on distances
K(v) == (v + 5) \div 10
Dk(x, c) == (x[1]*1000 - c[1]) * (x[1]*1000 - c[1]) + (x[2]*1000 - c[2]) * (x[2]*1000 - c[2])
CrossK(a, b, c) == (b[1]-a[1])*(c[2]-a[2]*1000) - (b[2]-a[2])*(c[1]-a[1]*1000)      \* a, b exact, c in 1/1000
IsMec(c, r, P) ==     \* it encloses P, and touches it at two opposite points or three around the centre: it is the smallest
  /\ \A x \in P : Abs(x[1]*1000-c[1]) <= r+2 /\ Abs(x[2]*1000-c[2]) <= r+2 /\ Dk(x, c) <= (r+2)*(r+2)
  /\ LET B == { x \in P : r <= 3 \/ Dk(x, c) >= (r-3)*(r-3) }
     IN \/ \E a, b \in B : D2(a,b)*1000 >= ((2*r-6) * (2*r-6)) \div 1000
        \/ \E a, b, d \in B :
             /\ Orient(a, b, d) > 0
             /\ CrossK(a, b, c) >= -3 * (Abs(b[1]-a[1]) + Abs(b[2]-a[2]))
             /\ CrossK(b, d, c) >= -3 * (Abs(b[1]-d[1]) + Abs(b[2]-d[2]))
             /\ CrossK(d, a, c) >= -3 * (Abs(d[1]-a[1]) + Abs(d[2]-a[2]))
CircSane(c) == Abs(c[1]) <= 400000 /\ Abs(c[2]) <= 400000 /\ c[3] > 0 /\ c[3] <= 220000
MecOk(st, e) ==
  LET P == Pos(st.p)
  IN /\ e.z                                \* a null radius is still refused
     /\ IF Cardinality(P) < 2 THEN e.cT /\ (e.keep => e.c = st.c)    \* refused: the circle object is as before
        ELSE /\ ~e.cT /\ CircSane(e.c)
             /\ IsMec(<<K(e.c[1]), K(e.c[2])>>, K(e.c[3]), P)
\* circle through three points / on a diameter
Cir3Ok(st, e) ==
  LET n == Len(st.p)
      a == st.p[(e.a[2] % n)+1]  b == st.p[(e.a[3] % n)+1]  d == st.p[(e.a[4] % n)+1]
      on(x) == LET r == K(e.c[3]) IN Abs(Dk(x, <<K(e.c[1]), K(e.c[2])>>) - r*r) <= (4*r) + 4
      den == Abs(Cross(a,b,d))
      long == Max2(D2(a,b), Max2(D2(b,d), D2(a,d)))
  IN IF e.a[1] = 2
     THEN IF a = b THEN e.cT /\ (e.keep => e.c = st.c)
          ELSE ~e.cT /\ Near(e.c[1]*2, (a[1]+b[1])*S, 4) /\ Near(e.c[2]*2, (a[2]+b[2])*S, 4)
               /\ LenOk((e.c[3]+25) \div 25, D2(a,b))       \* diameter at scale LS = 2r/50
     ELSE IF den = 0 THEN e.cT /\ (e.keep => e.c = st.c)
          ELSE \/ den*den*100 <= long                        \* nearly aligned: may be refused, or huge
               \/ ~e.cT /\ Abs(e.c[1]) < 1000000000 /\ (CircSane(e.c) => on(a) /\ on(b) /\ on(d))

Accepts(st, e) ==
  CASE "r" \in DOMAIN e /\ e.r = "crash" -> FALSE
    [] e.op = "begin" -> TRUE
    [] e.op \in Modifiers -> e.r = "ok" /\ PtsOk(e.v, Effect(st.p, e))
    [] e.op = "hull" -> HullOk(st.p, e)
    [] e.op = "ext" -> ExtOk(st.p, e)
    [] e.op = "near" -> NearOk(st.p, e)
    [] e.op = "ins" -> InsideOk(st.p, e)
    [] e.op = "bbp" -> BBpOk(st.p, e)
    [] e.op = "mec" -> IF "r" \in DOMAIN e /\ e.r = "skip" THEN TRUE ELSE MecOk(st, e)
    [] e.op = "cir" -> IF st.p = <<>> THEN e.r = "skip" ELSE Cir3Ok(st, e)
    [] OTHER -> FALSE
Apply(st, e) == IF e.op = "begin" THEN InitSt
                ELSE [ p |-> Effect(st.p, e), c |-> IF e.op \in {"mec","cir"} /\ "c" \in DOMAIN e /\ e.keep THEN e.c ELSE st.c ]
=============================================================================
