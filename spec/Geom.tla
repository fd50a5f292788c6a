-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Exact plane geometry on integer coordinates: the oracle shared by all    *)
(* the specification modules.  A point is <<x,y>>, a segment <<p,q>>, a     *)
(* rectangle <<x0,y0,x1,y1>> with x0<x1, y0<y1, a polyline a sequence of    *)
(* points.  Real-valued observations of the implementation are recorded in  *)
(* fixed point (see Fx): everything else is exact.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

S  == 10000      \* fixed point scale of recorded coordinates, areas, ratios
LS == 200        \* fixed point scale of recorded lengths (irrational values)

Abs(x)    == IF x < 0 THEN -x ELSE x
Min2(a,b) == IF a < b THEN a ELSE b
Max2(a,b) == IF a < b THEN b ELSE a
Sgn(x)    == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
MinSet(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxSet(s) == CHOOSE x \in s : \A y \in s : x >= y
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))

(*----------------------------- fixed point ------------------------------*)
\* the fixed point image of num/den (floor); den /= 0
Fx(num, den) ==
  LET n == IF den < 0 THEN -num ELSE num
      d == Abs(den)
      ip  == n \div d
      rem == n % d
  IN ip * S + (rem * S) \div d

Near(q, v, tol) == q - v <= tol /\ v - q <= tol
FxOk(q, num, den) == Near(q, Fx(num, den), 3)
PtOk(q, p) == Near(q[1], p[1] * S, 3) /\ Near(q[2], p[2] * S, 3)
PtFxOk(q, nx, ny, den) == FxOk(q[1], nx, den) /\ FxOk(q[2], ny, den)

RECURSIVE ISqrtB(_,_,_)
ISqrtB(n, lo, hi) ==         \* lo*lo <= n < hi*hi
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF m <= 46340 /\ m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m)
ISqrt(n) == ISqrtB(n, 0, Min2(46341, n + 1))

\* q (scale LS) is the square root of the integer d2
LenOk(q, d2) == LET v == ISqrt(d2 * (LS * LS)) IN q >= v - 1 /\ q <= v + 2

(*------------------------------ vectors ---------------------------------*)
Sub(a,b) == << a[1] - b[1], a[2] - b[2] >>
Add(a,b) == << a[1] + b[1], a[2] + b[2] >>
CrossV(u,v) == u[1] * v[2] - u[2] * v[1]
DotV(u,v)   == u[1] * v[1] + u[2] * v[2]
Cross(o,a,b) == (a[1]-o[1]) * (b[2]-o[2]) - (a[2]-o[2]) * (b[1]-o[1])
Orient(o,a,b) == Sgn(Cross(o,a,b))
D2(a,b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])
Less(a,b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])     \* lexicographic
SortPair(a,b) == IF Less(b,a) THEN <<b,a>> ELSE <<a,b>>
\* images by the five "full step" operations, about the origin
Turn(k, p) == CASE k = 0 -> << -p[2],  p[1] >>      \* CCW
                [] k = 1 -> <<  p[2], -p[1] >>      \* CW
                [] k = 2 -> << -p[1], -p[2] >>      \* Full
                [] k = 3 -> << -p[1],  p[2] >>      \* VMirror
                [] k = 4 -> <<  p[1], -p[2] >>      \* HMirror
TurnAbout(k, p, c) == Add(Turn(k, Sub(p,c)), c)

(*------------------------------ segments --------------------------------*)
\* p on the closed segment [a,b]
OnSeg(p,a,b) ==
  /\ Cross(a,b,p) = 0
  /\ Min2(a[1],b[1]) <= p[1] /\ p[1] <= Max2(a[1],b[1])
  /\ Min2(a[2],b[2]) <= p[2] /\ p[2] <= Max2(a[2],b[2])
\* the closed segments share at least a point
SegTouch(a,b,c,d) ==
  LET o1 == Orient(a,b,c)  o2 == Orient(a,b,d)
      o3 == Orient(c,d,a)  o4 == Orient(c,d,b)
  IN \/ (o1 * o2 < 0 /\ o3 * o4 < 0)
     \/ OnSeg(c,a,b) \/ OnSeg(d,a,b) \/ OnSeg(a,c,d) \/ OnSeg(b,c,d)
Parallel(a,b,c,d) == CrossV(Sub(b,a), Sub(d,c)) = 0
\* non-parallel closed segments crossing or touching: they share one point
SegCross(a,b,c,d) == ~Parallel(a,b,c,d) /\ SegTouch(a,b,c,d)
\* that point, as <<nx,ny,den>> (homogeneous, den # 0)
CrossPt(a,b,c,d) ==
  LET u == Sub(b,a)  v == Sub(d,c)
      den == CrossV(u,v)
      t   == CrossV(Sub(c,a), v)        \* a + (t/den) u
  IN << a[1]*den + t*u[1], a[2]*den + t*u[2], den >>
\* exact equality / order of homogeneous points
NormH(h) == IF h[3] < 0 THEN << -h[1], -h[2], -h[3] >> ELSE h
RedH(h) == LET n == NormH(h)
               g == Gcd(Gcd(Abs(n[1]), Abs(n[2])), n[3])
           IN << n[1] \div g, n[2] \div g, n[3] \div g >>

(*------------------------------ polylines -------------------------------*)
Nxt(i,n) == IF i = n THEN 1 ELSE i + 1
Prv(i,n) == IF i = 1 THEN n ELSE i - 1
NbSegs(pl, closed) == IF Len(pl) < 2 THEN 0 ELSE IF closed THEN Len(pl) ELSE Len(pl) - 1
Edge(pl, i) == << pl[i], pl[Nxt(i, Len(pl))] >>
Edges(pl, closed) == [ i \in 1..NbSegs(pl, closed) |-> Edge(pl, i) ]

\* twice the signed area
Area2(pl) ==
  LET n == Len(pl)
  IN IF n < 3 THEN 0
     ELSE SumSeq([ i \in 1..(n-2) |-> Cross(pl[1], pl[i+1], pl[i+2]) ])
\* numerators of the centroid (relative to pl[1]); denominator 3*Area2
CenNum(pl, k) ==
  LET n == Len(pl)
  IN SumSeq([ i \in 1..(n-2) |->
       Cross(pl[1], pl[i+1], pl[i+2]) * ((pl[i+1][k]-pl[1][k]) + (pl[i+2][k]-pl[1][k])) ])

Reversal(a,b,c) ==      \* the path a->b->c goes back over itself at b
  Cross(a,b,c) = 0 /\ DotV(Sub(a,b), Sub(c,b)) > 0
StraightAt(a,b,c) ==    \* the path a->b->c goes straight on at b
  Cross(a,b,c) = 0 /\ DotV(Sub(b,a), Sub(c,b)) > 0

\* simple polygon: edges meet only at the shared vertex of consecutive ones
SimplePoly(pl) ==
  LET n == Len(pl)
  IN /\ n >= 3
     /\ \A i \in 1..n : ~Reversal(pl[Prv(i,n)], pl[i], pl[Nxt(i,n)])
     /\ \A i \in 1..n : \A j \in (i+2)..n :
          (i = 1 /\ j = n) \/ ~SegTouch(pl[i], pl[Nxt(i,n)], pl[j], pl[Nxt(j,n)])
Turns(pl) == LET n == Len(pl) IN { Orient(pl[Prv(i,n)], pl[i], pl[Nxt(i,n)]) : i \in 1..n }
ConvexPoly(pl) == SimplePoly(pl) /\ ~({-1,1} \subseteq Turns(pl))

\* figure equality
RotSeq(pl,k) == LET n == Len(pl) IN [ i \in 1..n |-> pl[((i-1+k) % n) + 1] ]
RevSeq(pl)   == LET n == Len(pl) IN [ i \in 1..n |-> pl[n+1-i] ]
SameCycle(p,q) ==
  /\ Len(p) = Len(q)
  /\ \/ Len(p) = 0
     \/ \E k \in 0..(Len(p)-1) : q = RotSeq(p,k) \/ RevSeq(q) = RotSeq(p,k)
SamePath(p,q) == p = q \/ p = RevSeq(q)
SameFig(p,q,closed) == IF closed THEN SameCycle(p,q) ELSE SamePath(p,q)

\* vertices that minimization must remove
Redundant(pl, closed) ==
  LET n == Len(pl)
  IN IF n < 3 THEN {}
     ELSE { i \in (IF closed THEN 1..n ELSE 2..(n-1)) :
              StraightAt(pl[Prv(i,n)], pl[i], pl[Nxt(i,n)]) }
KeepIdx(pl, ids) == LET f(a, i) == IF i \in ids THEN a ELSE Append(a, pl[i])
                    IN FoldLeft(f, << >>, [ i \in 1..Len(pl) |-> i ])
Minimized(pl, closed) == KeepIdx(pl, Redundant(pl, closed))

\* p strictly inside / on the boundary of a simple polygon
OnPolyBoundary(p, pl) == \E i \in 1..Len(pl) : OnSeg(p, pl[i], pl[Nxt(i,Len(pl))])
CrossesRay(p,a,b) ==      \* edge a->b crosses the ray going right from p (half-open rule)
  \/ (a[2] <= p[2] /\ b[2] > p[2] /\ Cross(a,b,p) > 0)
  \/ (b[2] <= p[2] /\ a[2] > p[2] /\ Cross(a,b,p) < 0)
InPoly(p, pl) ==
  /\ ~OnPolyBoundary(p, pl)
  /\ Cardinality({ i \in 1..Len(pl) : CrossesRay(p, pl[i], pl[Nxt(i,Len(pl))]) }) % 2 = 1

XMin(pl) == MinSet({ pl[i][1] : i \in 1..Len(pl) })
XMax(pl) == MaxSet({ pl[i][1] : i \in 1..Len(pl) })
YMin(pl) == MinSet({ pl[i][2] : i \in 1..Len(pl) })
YMax(pl) == MaxSet({ pl[i][2] : i \in 1..Len(pl) })
BBox(pl) == << XMin(pl), YMin(pl), XMax(pl), YMax(pl) >>
HasArea(bb) == bb[1] < bb[3] /\ bb[2] < bb[4]

(*------------------------------ rectangles ------------------------------*)
MkRect(x0,y0,x1,y1) == << Min2(x0,x1), Min2(y0,y1), Max2(x0,x1), Max2(y0,y1) >>
RectPts(r) == << <<r[1],r[2]>>, <<r[1],r[4]>>, <<r[3],r[4]>>, <<r[3],r[2]>> >>
RectArea(r) == (r[3]-r[1]) * (r[4]-r[2])
RectMeet(r,t) == << Max2(r[1],t[1]), Max2(r[2],t[2]), Min2(r[3],t[3]), Min2(r[4],t[4]) >>
RectOverlap(r,t) == HasArea(RectMeet(r,t))
RectOk(q, r) == /\ Near(q[1], r[1]*S, 3) /\ Near(q[2], r[2]*S, 3)
                /\ Near(q[3], r[3]*S, 3) /\ Near(q[4], r[4]*S, 3)

\* every observed point list (fixed point) is this list of exact points
PtsOk(q, pl) == Len(q) = Len(pl) /\ \A i \in 1..Len(pl) : PtOk(q[i], pl[i])
\* rounds an observed fixed point list to integer points
RoundI(v) == (v + S \div 2) \div S
RoundPts(q) == [ i \in 1..Len(q) |-> << RoundI(q[i][1]), RoundI(q[i][2]) >> ]
IntegralPts(q) == \A i \in 1..Len(q) : PtOk(q[i], << RoundI(q[i][1]), RoundI(q[i][2]) >>)
=============================================================================
