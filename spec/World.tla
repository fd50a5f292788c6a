------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* A small world of geometric objects: six slots, each holding a point,     *)
(* line, segment, oriented segment, flat rectangle, circle, closed or open  *)
(* polyline.  Modifying operations change one slot; queries relate slots.   *)
(* A figure is [k: kind, p: points, r: radius]:                             *)
(*   pt <<P>>  line <<P,Q>> (two of its points)  seg/oseg <<A,B>>           *)
(*   rect <<low corner, high corner>>  circ <<C>>, r  cp/op vertices        *)
(* Operations are <<name, args...>> with integer arguments.                 *)
(***************************************************************************)
EXTENDS Geom

Slots == 1..6
Kinds == << "pt", "line", "seg", "oseg", "rect", "circ", "cp", "op" >>
None == [ k |-> "none", p |-> <<>>, r |-> 0 ]
Fig(k, p, r) == [ k |-> k, p |-> p, r |-> r ]
InitSt == [ i \in Slots |-> None ]

DecPts(a, from, n) == [ i \in 1..n |-> << a[from + 2*i - 2], a[from + 2*i - 1] >> ]
ValidPts(q) == /\ Len(q) # 1
               /\ Len(q) > 1 => \A i \in 1..Len(q) : q[i] # q[Nxt(i,Len(q))]
Valid(f) == CASE f.k = "none" -> FALSE
              [] f.k = "pt" -> TRUE
              [] f.k \in {"line","seg","oseg"} -> f.p[1] # f.p[2]
              [] f.k = "rect" -> f.p[1][1] < f.p[2][1] /\ f.p[1][2] < f.p[2][2]
              [] f.k = "circ" -> f.r > 0
              [] f.k \in {"cp","op"} -> ValidPts(f.p)
\* the stored form: sorted ends for a segment, sorted corners for a rectangle
Canon(f) == CASE f.k = "seg" -> [ f EXCEPT !.p = SortPair(f.p[1], f.p[2]) ]
              [] f.k = "rect" -> LET m == MkRect(f.p[1][1], f.p[1][2], f.p[2][1], f.p[2][2])
                                 IN [ f EXCEPT !.p = << <<m[1],m[2]>>, <<m[3],m[4]>> >> ]
              [] OTHER -> f
MapFig(f, F(_)) == Canon([ f EXCEPT !.p = [ i \in 1..Len(f.p) |-> F(f.p[i]) ] ])
RectOf(f) == << f.p[1][1], f.p[1][2], f.p[2][1], f.p[2][2] >>
FigOfRect(r) == Fig("rect", << <<r[1],r[2]>>, <<r[3],r[4]>> >>, 0)
Linear == {"line","seg","oseg"}
Outline == {"rect","cp","op"}

(*---------------------------- pieces of a figure -------------------------*)
Pieces(f) == CASE f.k \in Linear -> << f.p >>
               [] f.k = "rect" -> LET q == RectPts(RectOf(f)) IN Edges(q, TRUE)
               [] f.k = "cp" -> Edges(f.p, TRUE)
               [] f.k = "op" -> Edges(f.p, FALSE)
               [] OTHER -> <<>>
Verts(f) == IF f.k = "rect" THEN RectPts(RectOf(f)) ELSE f.p
\* bounding box of the points that carry extent; <<>> when there is none
BoxPts(f) == CASE f.k \in {"none","line"} -> <<>>
               [] f.k = "circ" -> LET c == f.p[1] IN << <<c[1]-f.r, c[2]-f.r>>, <<c[1]+f.r, c[2]+f.r>> >>
               [] OTHER -> f.p

(*------------------------------ modifiers --------------------------------*)
Res(k, f) == [ k |-> k, f |-> f ]
Keep(st, s, k) == Res(k, st[s])
NewFig(a) ==
  LET k == Kinds[a[2]]  n == a[4]
  IN CASE k = "circ" -> Fig("circ", << <<a[4],a[5]>> >>, a[6])
       [] k = "pt" -> Fig("pt", << <<a[4],a[5]>> >>, 0)
       [] k \in {"line","seg","oseg","rect"} -> Canon(Fig(k, << <<a[4],a[5]>>, <<a[6],a[7]>> >>, 0))
       [] OTHER -> Fig(k, DecPts(a, 5, n), 0)
Same(f, g) == f.k = g.k
\* a modifier called with parts of the object itself: only the values that these had count
Own(f, j, a, b) ==
  LET c == f.p[1]  n == Len(f.p)  m == j % 5
      to(v) == MapFig(f, LAMBDA x : Add(x, Sub(v, c)))
  IN CASE f.k \in {"none","line"} \/ n = 0 -> Res("skip", f)
       [] f.k = "circ" /\ m = 0 -> IF a <= 0 THEN Res("throw", f) ELSE Res("ok", [ f EXCEPT !.r = a ])           \* (centre, radius)
       [] f.k = "circ" /\ m = 1 -> IF a = 0 THEN Res("throw", f) ELSE Res("ok", Fig("circ", << Add(c, <<a,0>>) >>, Abs(a)))   \* (centre, point): a diameter
       [] f.k = "circ" /\ m = 2 -> IF b = 0 THEN Res("throw", f) ELSE Res("ok", Fig("circ", << Add(c, <<0,b>>) >>, Abs(b)))   \* (point, centre)
       [] f.k = "circ" /\ m = 3 -> IF a = 0 \/ b = 0 \/ ISqrt((a*a)+(b*b)) * ISqrt((a*a)+(b*b)) # (a*a)+(b*b) THEN Res("skip", f)  \* three points
                                  ELSE Res("ok", Fig("circ", << Add(c, <<a,b>>) >>, ISqrt((a*a)+(b*b))))
       [] f.k \in {"circ","pt"} -> Res("ok", f)                                                              \* moved to where it is
       [] f.k = "oseg" /\ j % 2 = 0 -> Res("ok", [ f EXCEPT !.p = << f.p[2], f.p[1] >> ])                    \* set(second, first)
       [] f.k \in {"seg","rect"} /\ j % 2 = 0 -> Res("ok", f)
       [] f.k \in {"cp","op"} /\ j % 2 = 0 -> Res("ok", f)                                                  \* set(its own points)
       [] OTHER -> Res("ok", to(f.p[n]))                                                                    \* moved to its own last point
Effect(st, name, a) ==
  LET s == a[1]  f == st[s]
  IN CASE name = "new" -> LET g == NewFig(a) IN IF Valid(g) THEN Res("ok", g)
                                                 ELSE Res("throw", IF f.k = g.k THEN f ELSE None)
       [] name = "tr" -> IF f.k = "none" THEN Res("skip", f) ELSE IF f.k = "line" THEN Res("ok", f)  \* documented: nothing for a line
                         ELSE Res("ok", MapFig(f, LAMBDA x : Add(x, <<a[2],a[3]>>)))
       [] name = "mv" -> IF f.k = "none" \/ f.k = "line" THEN Res("skip", f)
                         ELSE IF f.p = <<>> THEN Res("throw", f)
                         ELSE Res("ok", MapFig(f, LAMBDA x : Add(x, Sub(<<a[2],a[3]>>, f.p[1]))))
       [] name = "rot" -> IF f.k \notin Outline THEN Res("skip", f) ELSE Res("ok", MapFig(f, LAMBDA x : Turn(a[2], x)))
       [] name = "rotc" -> IF f.k \notin Outline THEN Res("skip", f)
                           ELSE Res("ok", MapFig(f, LAMBDA x : TurnAbout(a[2], x, <<a[3],a[4]>>)))
       [] name = "roto" -> IF f.k \notin Outline \/ a[3] >= Len(Verts(f)) THEN Res("skip", f)
                           ELSE LET c == Verts(f)[a[3]+1] IN Res("ok", MapFig(f, LAMBDA x : TurnAbout(a[2], x, c)))
       [] name = "conv" /\ st[a[2]].k = "line" -> Res("ok", [ st[a[2]] EXCEPT !.r = 1 ])   \* went through float: coefficients rounded
       [] name \in {"asg","conv","self"} -> LET g == st[a[2]] IN IF g.k = "none" THEN Res("skip", f) ELSE Res("ok", g)
       [] name = "seg2" -> LET g == st[a[2]]    \* segment <-> oriented segment
                           IN IF g.k = "seg" THEN Res("ok", [ g EXCEPT !.k = "oseg" ])
                              ELSE IF g.k = "oseg" THEN Res("ok", Canon([ g EXCEPT !.k = "seg" ])) ELSE Res("skip", f)
       [] name = "neg" -> LET g == st[a[2]] IN IF g.k = "oseg" THEN Res("ok", [ g EXCEPT !.p = << g.p[2], g.p[1] >> ]) ELSE Res("skip", f)
       [] name = "r2p" -> LET g == st[a[2]] IN IF g.k = "rect" THEN Res("ok", Fig("cp", Verts(g), 0)) ELSE Res("skip", f)
       [] name = "o2c" -> LET g == st[a[2]] IN IF g.k = "op" THEN Res("ok", [ g EXCEPT !.k = "cp" ]) ELSE Res("skip", f)
       [] name = "setr" -> IF f.k # "circ" THEN Res("skip", f) ELSE IF a[2] <= 0 THEN Res("throw", f) ELSE Res("ok", [ f EXCEPT !.r = a[2] ])
       [] name = "setc" -> IF f.k # "circ" THEN Res("skip", f) ELSE Res("ok", [ f EXCEPT !.p = << <<a[2],a[3]>> >> ])
       [] name = "own" -> Own(f, a[2], a[3], a[4])
       [] name = "ext" -> LET g == st[a[2]]
                          IN IF g.k = "rect" THEN LET w == g.p[2][1]-g.p[1][1]  h == g.p[2][2]-g.p[1][2]
                                                  IN Res("ok", Fig("rect", << <<g.p[1][1]-w, g.p[1][2]-h>>, <<g.p[2][1]+w, g.p[2][2]+h>> >>, 0))
                             ELSE IF g.k = "seg" \/ g.k = "oseg"
                                  THEN LET u == Sub(g.p[2], g.p[1]) IN Res("ok", [ g EXCEPT !.p = << Sub(g.p[1],u), Add(g.p[2],u) >> ])
                             ELSE Res("skip", f)
       [] name = "bb" -> LET w == BoxPts(st[a[2]])
                         IN IF st[a[2]].k \in {"none","pt","line","seg","oseg"} THEN Res("skip", f)
                            ELSE IF w = <<>> \/ ~HasArea(BBox(w)) THEN Res("throw", f) ELSE Res("ok", FigOfRect(BBox(w)))
Modifiers == { "new","tr","mv","rot","rotc","roto","asg","conv","self","seg2","neg","r2p","o2c","setr","setc","own","ext","bb" }

(*--------------------------- is-inside (P07) -----------------------------*)
\* squared distance of p to segment [a,b] compared with r*r: -1, 0, 1
CmpDist(p, a, b, r) ==
  LET u == Sub(b,a)  w == Sub(p,a)  d == DotV(u,w)
  IN IF d <= 0 THEN Sgn(D2(p,a) - r*r)
     ELSE IF d >= DotV(u,u) THEN Sgn(D2(p,b) - r*r)
     ELSE Sgn(Abs(CrossV(u,w)) * Abs(CrossV(u,w)) - r*r*DotV(u,u))
TF(b) == IF b THEN "T" ELSE "F"
PtIn(x, g) == CASE g.k = "rect" -> g.p[1][1] < x[1] /\ x[1] < g.p[2][1] /\ g.p[1][2] < x[2] /\ x[2] < g.p[2][2]
                [] g.k = "circ" -> D2(x, g.p[1]) < g.r * g.r
                [] g.k = "cp" -> InPoly(x, g.p)
AllIn(f, g) == \A i \in 1..Len(Verts(f)) : PtIn(Verts(f)[i], g)
NoTouch(f, g) == LET a == Pieces(f) b == Pieces(g)
                 IN \A i \in 1..Len(a) : \A j \in 1..Len(b) : ~SegTouch(a[i][1], a[i][2], b[j][1], b[j][2])
Inside(f, g) ==       \* "T", "F", or "any": beyond what is promised
  CASE g.k \in {"pt","line","seg","oseg","op"} \/ f.k = "line" -> "F"
    [] f.k \in {"cp","op"} /\ f.p = <<>> -> "any"
    [] g.k = "cp" /\ ~SimplePoly(g.p) -> "any"
    [] f.k = "circ" /\ g.k = "rect" -> LET c == f.p[1] IN TF(/\ c[1]-f.r > g.p[1][1] /\ c[1]+f.r < g.p[2][1]
                                                             /\ c[2]-f.r > g.p[1][2] /\ c[2]+f.r < g.p[2][2])
    [] f.k = "circ" /\ g.k = "circ" -> TF(f.r < g.r /\ D2(f.p[1], g.p[1]) < (g.r - f.r) * (g.r - f.r))
    [] f.k = "circ" /\ g.k = "cp" ->
         IF ~InPoly(f.p[1], g.p) THEN "F"
         ELSE LET ed == Pieces(g)  cmp == { CmpDist(f.p[1], ed[i][1], ed[i][2], f.r) : i \in 1..Len(ed) }
              IN IF -1 \in cmp THEN "F"
                 ELSE IF 0 \in cmp     \* touching: exact for axis-parallel edges, a matter of rounding otherwise
                      THEN IF \E i \in 1..Len(ed) : (ed[i][1][1] = ed[i][2][1] \/ ed[i][1][2] = ed[i][2][2])
                                                    /\ CmpDist(f.p[1], ed[i][1], ed[i][2], f.r) = 0 THEN "F" ELSE "any"
                      ELSE "T"
    [] f.k = "pt" -> TF(PtIn(f.p[1], g))
    [] g.k = "cp" -> TF(AllIn(f, g) /\ NoTouch(f, g))
    [] OTHER -> TF(AllIn(f, g))

\* a whole n x n grid of points ((x0+i*step)/den, (y0+j*step)/den) against the figure of slot s: e.g holds 0, 1, or 2 (failure)
IngOk(f, e) ==
  LET x0 == e.a[2]  y0 == e.a[3]  n == e.a[4]  step == e.a[5]  den == e.a[6]
      h == [ f EXCEPT !.p = [ i \in 1..Len(f.p) |-> << f.p[i][1]*den, f.p[i][2]*den >> ], !.r = f.r * den ]
  IN \/ f.k = "cp" /\ ~SimplePoly(f.p)
     \/ Len(e.g) = n*n /\ \A i \in 0..(n-1) : \A j \in 0..(n-1) :
            e.g[(i*n)+j+1] = (IF PtIn(<< x0 + (i*step), y0 + (j*step) >>, h) THEN 1 ELSE 0)

(*------------------------- intersections (P08-P10) -----------------------*)
Touch1(pa, ka, pb, kb) ==     \* two straight pieces of kinds "line" or segment share exactly one point
  /\ ~Parallel(pa[1], pa[2], pb[1], pb[2])
  /\ ka = "line" \/ Orient(pb[1],pb[2],pa[1]) * Orient(pb[1],pb[2],pa[2]) <= 0
  /\ kb = "line" \/ Orient(pa[1],pa[2],pb[1]) * Orient(pa[1],pa[2],pb[2]) <= 0
CommonPts(f, g) ==            \* exact, as reduced homogeneous points
  LET a == Pieces(f)  b == Pieces(g)
  IN UNION { { RedH(CrossPt(a[i][1], a[i][2], b[j][1], b[j][2])) : j \in { k \in 1..Len(b) : Touch1(a[i], f.k, b[k], g.k) } } : i \in 1..Len(a) }
MeetCount(f, g, h) ==         \* number of pairs of pieces having the common point h
  LET a == Pieces(f)  b == Pieces(g)
  IN SumSeq([ i \in 1..Len(a) |-> Cardinality({ k \in 1..Len(b) : Touch1(a[i], f.k, b[k], g.k) /\ RedH(CrossPt(a[i][1], a[i][2], b[k][1], b[k][2])) = h }) ])
SoftLine(f) == f.k = "line" /\ f.r = 1
PtNear(v, h) == PtFxOk(v, h[1], h[2], h[3])
SortedPts(v) == \A i \in 1..(Len(v)-1) : v[i][1] <= v[i+1][1] + 1    \* by abscissa (equal ones may differ by rounding)
Distinct(v) == \A i \in 1..Len(v) : \A j \in (i+1)..Len(v) : ~(Near(v[i][1], v[j][1], 3) /\ Near(v[i][2], v[j][2], 3))
SetMatch(v, E) ==
  /\ Len(v) = Cardinality(E)
  /\ \A i \in 1..Len(v) : \E h \in E : PtNear(v[i], h)
  /\ \A h \in E : \E i \in 1..Len(v) : PtNear(v[i], h)

\* polylines are searched edge by edge: a common vertex may be reported once for each edge ending there
\* a line whose coefficients are stored in float is not exactly the line given: a contact with a vertex is then optional
AtVertex(h, f, g) == \E x \in Range(IF f.k = "line" THEN Verts(g) ELSE Verts(f)) : h[1] = x[1]*h[3] /\ h[2] = x[2]*h[3]
FarNear(x, h) ==     \* nearly parallel: the error grows with the distance
  LET far(a) == LET q == (h[a] * 100) \div h[3] IN Abs(x[a] \div 100 - q) <= Max2(Abs(h[1] \div h[3]), Abs(h[2] \div h[3])) \div 20
  IN far(1) /\ far(2)
PolyMatch(v, f, g, soft) ==
  LET E == CommonPts(f, g)
      near(x, h) == PtNear(x, h) \/ (soft /\ FarNear(x, h))
  IN /\ \A i \in 1..Len(v) : \E h \in E : near(v[i], h)
     /\ \A h \in E : LET n == Cardinality({ i \in 1..Len(v) : near(v[i], h) })
                     IN (n >= 1 \/ (soft /\ \E x \in E : AtVertex(x, f, g))) /\ n <= MeetCount(f, g, h)

\* circles: how many common points with the piece [a,b] (or the whole line)
CircTouch(c, r, a, b, isline) ==   \* [n: number, v: those that are end points, t: tangent, axis: axis-parallel]
  LET u == Sub(b,a)  w == Sub(c,a)
      cr == Abs(CrossV(u,w))  l2 == DotV(u,u)
      s == Sgn(cr*cr - r*r*l2)
      d == DotV(u,w)
      f0 == Sgn(D2(a,c) - r*r)  f1 == Sgn(D2(b,c) - r*r)
      axis == a[1] = b[1] \/ a[2] = b[2]
      n == IF s > 0 THEN 0
           ELSE IF isline THEN (IF s = 0 THEN 1 ELSE 2)
           ELSE IF s = 0 THEN (IF d >= 0 /\ d <= l2 THEN 1 ELSE 0)
           ELSE IF f0 < 0 /\ f1 < 0 THEN 0
           ELSE IF f0 * f1 < 0 THEN 1
           ELSE IF f0 = 0 /\ f1 = 0 THEN 2
           ELSE IF f0 = 0 THEN (IF f1 < 0 THEN 1 ELSE IF d > 0 THEN 2 ELSE 1)
           ELSE IF f1 = 0 THEN (IF f0 < 0 THEN 1 ELSE IF d < l2 THEN 2 ELSE 1)
           ELSE IF d > 0 /\ d < l2 THEN 2 ELSE 0
      ends == IF isline THEN {} ELSE (IF f0 = 0 THEN {a} ELSE {}) \cup (IF f1 = 0 THEN {b} ELSE {})
  IN [ n |-> n, v |-> ends, t |-> s = 0, axis |-> axis ]
\* recorded points lie on the circle / on the piece.  Coordinates relative to the centre, in 1/1000
KOf(v, c) == << (v[1] - c[1]*S) \div 10, (v[2] - c[2]*S) \div 10 >>
OnCircle(v, c, r) ==
  LET k == KOf(v, c)
  IN Abs(k[1]) <= 1000*r + 9 /\ Abs(k[2]) <= 1000*r + 9 /\ Abs(k[1]*k[1] + k[2]*k[2] - r*r*1000000) <= 5000*r + 10
OnPiece(v, a, b, isline) ==
  LET u == Sub(b,a)  w == << v[1] - a[1]*S, v[2] - a[2]*S >>
      w1 == << w[1] \div 10, w[2] \div 10 >>
  IN /\ Abs(CrossV(u, w1)) <= 3 * (Abs(u[1]) + Abs(u[2]))
     /\ isline \/ (/\ v[1] >= Min2(a[1],b[1])*S - 5 /\ v[1] <= Max2(a[1],b[1])*S + 5
                   /\ v[2] >= Min2(a[2],b[2])*S - 5 /\ v[2] <= Max2(a[2],b[2])*S + 5)
Dedup(v, tol) == LET f(acc, x) == IF \E i \in 1..Len(acc) : Near(acc[i][1],x[1],tol) /\ Near(acc[i][2],x[2],tol) THEN acc ELSE Append(acc, x)
                 IN FoldLeft(f, <<>>, v)
\* circle (c,r) with the figure g (a line, a segment or an outline); v: recorded points
CircOk(c, r, g, v) ==
  LET ed == Pieces(g)  isl == g.k = "line"
      ct == [ i \in 1..Len(ed) |-> CircTouch(c, r, ed[i][1], ed[i][2], isl) ]
      ends == UNION { ct[i].v : i \in 1..Len(ed) }
      nin == SumSeq([ i \in 1..Len(ed) |-> ct[i].n - Cardinality(ct[i].v) ])
      fuzzy == \E i \in 1..Len(ed) : ct[i].t /\ ~ct[i].axis
      tang == \E i \in 1..Len(ed) : ct[i].t
      simple == g.k # "cp" \/ SimplePoly(g.p)
      on(x) == OnCircle(x, c, r) /\ \E i \in 1..Len(ed) : OnPiece(x, ed[i][1], ed[i][2], isl)
      merge == tang \/ g.k \in {"op","cp"}     \* a point may be found twice (distinct ones can be close, too)
  IN \/ fuzzy
     \/ \E w \in (IF merge THEN { Dedup(v, 30), Dedup(v, 4) } ELSE { v }) :
        /\ \A i \in 1..Len(w) : on(w[i])
        /\ tang \/ Len(v) <= SumSeq([ i \in 1..Len(ed) |-> ct[i].n ])    \* a vertex: at most once per edge
        /\ \A p \in ends : \E i \in 1..Len(w) : PtOk(w[i], p)
        /\ IF g.k \in {"op","cp"} /\ (~simple \/ g.k = "op")    \* crossing pieces may share a point
           THEN Len(w) <= nin + Cardinality(ends) /\ (nin + Cardinality(ends) > 0 => Len(w) > 0)
           ELSE Len(w) = nin + Cardinality(ends)
        /\ Distinct(w)
Circ2Ok(f, g, v) ==
  LET d2 == D2(f.p[1], g.p[1])  sm == (f.r + g.r)*(f.r + g.r)  df == (f.r - g.r)*(f.r - g.r)
      axis == f.p[1][1] = g.p[1][1] \/ f.p[1][2] = g.p[1][2]
      n == IF d2 = 0 \/ d2 > sm \/ d2 < df THEN 0 ELSE IF d2 = sm \/ d2 = df THEN 1 ELSE 2
  IN \/ n = 1 /\ ~axis
     \/ /\ Len(v) = n /\ Distinct(v)
        /\ \A i \in 1..Len(v) : OnCircle(v[i], f.p[1], f.r) /\ OnCircle(v[i], g.p[1], g.r)
\* lines making an angle of less than 0.001 rad (thr::nullAngle) count as parallel: left open up to a bit more
NearPar(a, b, c, d) ==
  LET u == Sub(b,a)  v == Sub(d,c)  x == Abs(CrossV(u,v))
  IN x > 0 /\ x <= 40 /\ DotV(u,u) <= 40000 /\ DotV(v,v) <= 40000 /\ x*x*800000 <= DotV(u,u)*DotV(v,v)
AnyNearPar(f, g) == LET a == Pieces(f)  b == Pieces(g)
                    IN \E i \in 1..Len(a) : \E j \in 1..Len(b) : NearPar(a[i][1], a[i][2], b[j][1], b[j][2])
ItxOk(f, g, e) ==
  /\ e.b = (Len(e.v) > 0)
  /\ CASE AnyNearPar(f, g) -> TRUE
       [] f.k = "rect" /\ g.k = "rect" /\ f.p = g.p /\ e.v = <<>> -> TRUE     \* a rectangle and itself
       [] f.k = "circ" /\ g.k = "circ" -> Circ2Ok(f, g, e.v)
       [] f.k = "circ" -> CircOk(f.p[1], f.r, g, e.v)
       [] g.k = "circ" -> CircOk(g.p[1], g.r, f, e.v)
       [] {f.k,g.k} \cap {"op","cp"} # {} \/ e.fl -> PolyMatch(e.v, f, g, e.fl)
       [] OTHER -> SetMatch(e.v, CommonPts(f, g))
  /\ (f.k \in Outline \/ g.k \in Outline) => SortedPts(e.v)
CanItx(f, g) == LET K == Linear \cup Outline \cup {"circ"} IN f.k \in K /\ g.k \in K

(*------------------------------ rectangles -------------------------------*)
IarOk(f, g, e) ==       \* intersection area
  LET m == RectMeet(RectOf(f), RectOf(g))
  IN e.b = HasArea(m) /\ (e.b => RectOk(e.rc, m))
InterArea(r, t) == LET m == RectMeet(r,t) IN IF HasArea(m) THEN RectArea(m) ELSE 0
\* they share at least part of an edge (or more)
ShareEdge(r, t) == LET m == RectMeet(r,t) IN (m[1] < m[3] /\ m[2] <= m[4]) \/ (m[1] <= m[3] /\ m[2] < m[4])
CornerOnly(r, t) == LET m == RectMeet(r,t) IN m[1] = m[3] /\ m[2] = m[4]
\* the lattice cell with lower corner c is inside the closed rectilinear outline w
CellIn(c, w) ==
  LET n == Len(w)
      \* vertical edges to the right of the cell centre crossing its horizontal mid line
      x == { i \in 1..n : LET a == w[i]  b == w[Nxt(i,n)]
                          IN a[1] = b[1] /\ a[1] > c[1] /\ Min2(a[2],b[2]) <= c[2] /\ Max2(a[2],b[2]) > c[2] }
  IN Cardinality(x) % 2 = 1
CellInRect(c, r) == r[1] <= c[1] /\ c[1] < r[3] /\ r[2] <= c[2] /\ c[2] < r[4]
UniOk(f, g, e) ==
  LET r == RectOf(f)  t == RectOf(g)
      hull == << Min2(r[1],t[1]), Min2(r[2],t[2]), Max2(r[3],t[3]), Max2(r[4],t[4]) >>
      w == RoundPts(e.v)
  IN CASE CornerOnly(r, t) -> TRUE
       [] ~ShareEdge(r, t) -> e.v = <<>>
       [] OTHER ->
          /\ IntegralPts(e.v) /\ Len(w) >= 4
          /\ SimplePoly(w) /\ Redundant(w, TRUE) = {}
          /\ \A i \in 1..Len(w) : w[i][1] = w[Nxt(i,Len(w))][1] \/ w[i][2] = w[Nxt(i,Len(w))][2]
          /\ Abs(Area2(w)) = 2 * (RectArea(r) + RectArea(t) - InterArea(r, t))
          /\ Near(e.ar, (RectArea(r) + RectArea(t) - InterArea(r, t)) * S, 5)
          /\ (hull[3]-hull[1]) * (hull[4]-hull[2]) <= 150 =>
               \A x \in (hull[1]-1)..hull[3] : \A y \in (hull[2]-1)..hull[4] :
                  CellIn(<<x,y>>, w) = (CellInRect(<<x,y>>, r) \/ CellInRect(<<x,y>>, t))
IouOk(f, g, e) ==
  LET r == RectOf(f)  t == RectOf(g)  i == InterArea(r, t)
  IN IF CornerOnly(r, t) THEN TRUE ELSE ~e.iouT /\ FxOk(e.iou, i, RectArea(r) + RectArea(t) - i)

(*------------------------------ distances --------------------------------*)
\* recorded length (1/200) is sqrt(num)/sqrt(den): num, den integers
RatioLenOk(v, num, den) ==
  LET Q == (num \div den) * (LS*LS) + ((num % den) * (LS*LS)) \div den
      s == ISqrt(Q)
  IN v >= s - 1 /\ v <= s + 2
DistOk(f, g, e) ==
  CASE f.k = "pt" /\ g.k = "pt" -> LenOk(e.d, D2(f.p[1], g.p[1]))
    [] f.k = "pt" /\ g.k = "line" -> LET c == Cross(g.p[1], g.p[2], f.p[1]) IN RatioLenOk(e.d, c*c, D2(g.p[1], g.p[2]))
    [] f.k = "line" /\ g.k = "pt" -> LET c == Cross(f.p[1], f.p[2], g.p[1]) IN RatioLenOk(e.d, c*c, D2(f.p[1], f.p[2]))
    [] OTHER ->     \* segment and point (either order): which part is nearest is reported too
         LET sg == IF f.k = "pt" THEN g ELSE f   x == IF f.k = "pt" THEN f.p[1] ELSE g.p[1]
             a == sg.p[1]  b == sg.p[2]  u == Sub(b,a)  d == DotV(u, Sub(x,a))
         IN IF d < 0 THEN LenOk(e.d, D2(x,a)) /\ ("cas" \in DOMAIN e => e.cas = -1)
            ELSE IF d > DotV(u,u) THEN LenOk(e.d, D2(x,b)) /\ ("cas" \in DOMAIN e => e.cas = 1)
            ELSE /\ LET c == CrossV(u, Sub(x,a)) IN RatioLenOk(e.d, c*c, DotV(u,u))
                 /\ "cas" \in DOMAIN e => (e.cas = 0 \/ (d = 0 /\ e.cas = -1) \/ (d = DotV(u,u) /\ e.cas = 1))
CanDist(f, g) == \/ f.k = "pt" /\ g.k \in {"pt","line","seg","oseg"}
                 \/ f.k \in {"line","seg","oseg"} /\ g.k = "pt"
\* closest pair of two polylines (vertices)
CptOk(f, g, e) ==
  LET P == { D2(f.p[i], g.p[j]) : i \in 1..Len(f.p), j \in 1..Len(g.p) }
      m == MinSet(P)
  IN /\ e.i1 + 1 \in 1..Len(f.p) /\ e.i2 + 1 \in 1..Len(g.p)
     /\ D2(f.p[e.i1+1], g.p[e.i2+1]) = m
     /\ PtOk(e.v[1], f.p[e.i1+1]) /\ PtOk(e.v[2], g.p[e.i2+1])
     /\ LenOk(e.d, m)

(*---------------------------- bounding boxes -----------------------------*)
BB2Ok(f, g, e) ==
  LET w == BoxPts(f) \o BoxPts(g)
  IN IF w = <<>> \/ ~HasArea(BBox(w)) THEN e.bbT ELSE ~e.bbT /\ RectOk(e.bb, BBox(w))
\* container of the figures in slots a[2..] having the kind of the first; one whose own box is flat may be refused
BBkOk(st, e) ==
  LET fs == SelectSeq([ i \in 1..(Len(e.a)-1) |-> st[e.a[i+1]] ], LAMBDA f : f.k = st[e.a[2]].k)
      w == FlattenSeq([ i \in 1..Len(fs) |-> BoxPts(fs[i]) ])
  IN IF w = <<>> \/ ~HasArea(BBox(w)) THEN e.bbT
     ELSE \/ ~e.bbT /\ RectOk(e.bb, BBox(w))
          \/ e.bbT /\ fs[1].k \in {"cp","op"} /\ \E i \in 1..Len(fs) : BoxPts(fs[i]) = <<>> \/ ~HasArea(BBox(BoxPts(fs[i])))
\* slots a[2..]: container of those figures (vector of variants)
BBnOk(st, e) ==
  LET w == FlattenSeq([ i \in 1..(Len(e.a)-1) |-> BoxPts(st[e.a[i+1]]) ])
  IN IF w = <<>> \/ ~HasArea(BBox(w)) THEN e.bbT ELSE ~e.bbT /\ RectOk(e.bb, BBox(w))

(*----------------------------- observations ------------------------------*)
FigOk(f, e) == CASE f.k = "none" -> TRUE
                 [] f.k = "line" -> TRUE
                 [] f.k = "circ" -> PtOk(e.v[1], f.p[1]) /\ Near(e.v[2][1], f.r * S, 3)
                 [] f.k = "seg" -> \/ PtsOk(e.v, f.p)
                                   \/ f.p[1][1] = f.p[2][1] /\ PtsOk(e.v, << f.p[2], f.p[1] >>)
                 [] OTHER -> PtsOk(e.v, f.p)
SegLenSum(ed) == SumSeq([ i \in 1..Len(ed) |-> ISqrt(D2(ed[i][1], ed[i][2]) * (LS*LS)) ])
Len2Ok(v, ed) == v >= SegLenSum(ed) - 1 /\ v <= SegLenSum(ed) + Len(ed) + 1
PiCirc(v, r) == Near(v, (314159 * 2 * r) \div 500, 3 + (r \div 50))                     \* 2 pi r, scale 200
PiArea(v, r) == Near(v, (314159 * ((r*r) \div 10)) \div 10 + (314159 * ((r*r) % 10)) \div 100, 4 + (r*r) \div 200)   \* pi r^2, scale 1000
\* e.t: type, e.len, e.ar, e.sz and for some kinds more
ObsOk(f, e) ==
  CASE f.k = "none" -> TRUE
    [] f.k = "pt" -> e.t = "Point2d" /\ e.sz = 1 /\ e.len = 0 /\ e.ar = 0
    [] f.k = "line" -> /\ e.t = "Line2d" /\ e.lenT
                       \* the recorded distances of the two defining points are zero; a*x+b*y+c form is normalised
                       /\ e.ar = 0
    [] f.k \in {"seg","oseg"} ->
         /\ e.t = (IF f.k = "seg" THEN "Segment" ELSE "OSegment") /\ e.sz = 2 /\ e.ar = 0
         /\ Len2Ok(e.len, Pieces(f)) /\ Len2Ok(e.len2, Pieces(f))
         /\ PtFxOk(e.ctr, f.p[1][1]+f.p[2][1], f.p[1][2]+f.p[2][2], 2)
    [] f.k = "rect" ->
         LET r == RectOf(f)  w == r[3]-r[1]  h == r[4]-r[2]  q == RectPts(r)  d2 == w*w + h*h
         IN /\ e.t = "FRect" /\ e.sz = 4
            /\ Near(e.w, w*S, 3) /\ Near(e.h, h*S, 3) /\ Near(e.ar, w*h*S, 5) /\ Near(e.len, 2*(w+h)*LS, 2) /\ Near(e.len2, 2*(w+h)*LS, 2)
            /\ PtFxOk(e.ctr, r[1]+r[3], r[2]+r[4], 2)
            /\ PtsOk(e.q4, q)
            /\ Len(e.sg) = 4 /\ LET E == { {q[i], q[Nxt(i,4)]} : i \in 1..4 }
                                IN { { RoundPts(e.sg[i])[1], RoundPts(e.sg[i])[2] } : i \in 1..4 } = E
            /\ RectOk(e.bb, r)
            /\ RectOk(e.ext, << r[1]-w, r[2]-h, r[3]+w, r[4]+h >>)
            /\ PtFxOk(e.bc, r[1]+r[3], r[2]+r[4], 2) /\ LET d == e.bc[3] \div 50 IN Near(2*d, ISqrt(d2*LS*LS), 6)
            /\ PtFxOk(e.ic, r[1]+r[3], r[2]+r[4], 2) /\ FxOk(e.ic[3], Min2(w,h), 2)
            /\ { { RoundPts(e.dg[i])[1], RoundPts(e.dg[i])[2] } : i \in 1..2 } = { {q[1],q[3]}, {q[2],q[4]} }
    [] f.k = "circ" ->
         LET c == f.p[1]  r == f.r
         IN /\ e.t = "Circle" /\ e.sz = 1 /\ PtOk(e.ctr, c) /\ Near(e.rad, r*S, 3)
            /\ RectOk(e.bb, <<c[1]-r, c[2]-r, c[1]+r, c[2]+r>>)
            /\ PiCirc(e.len, r) /\ PiArea(e.ar3, r)
    [] OTHER ->
         LET cl == f.k = "cp"
         IN /\ e.t = (IF cl THEN "CPolyline" ELSE "OPolyline") /\ e.sz = Len(f.p)
            /\ Len2Ok(e.len, Pieces(f))
            /\ Near(e.ar * 2, (IF cl /\ SimplePoly(f.p) THEN Abs(Area2(f.p)) ELSE 0) * S, 6)
\* equality of two figures of one kind
EqFig(f, g) == CASE f.k = "line" -> /\ Parallel(f.p[1], f.p[2], g.p[1], g.p[2]) /\ Cross(f.p[1], f.p[2], g.p[1]) = 0
                 [] f.k \in {"cp","op"} -> SameFig(f.p, g.p, f.k = "cp")
                 [] OTHER -> f = g
\* point p (args x y) relative to the line in slot s
LptOk(f, e) == LET x == <<e.a[2], e.a[3]>>  c == Cross(f.p[1], f.p[2], x) IN RatioLenOk(e.d, c*c, D2(f.p[1], f.p[2]))

(*------------------------------- events ----------------------------------*)
Crashed(e) == "r" \in DOMAIN e /\ e.r = "crash"
ModOk(st, e) == LET x == Effect(st, e.op, e.a) IN e.r = x.k /\ FigOk(x.f, e)
                /\ (e.op \in {"asg","conv","seg2","neg","r2p","o2c","ext","bb","self"} => FigOk(IF e.a[1] = e.a[2] THEN x.f ELSE st[e.a[2]], [ v |-> e.w ]))
\* a query on two slots leaves both as they were (comparisons may relist a polyline)
Unchanged(st, e) == FigOk(st[e.a[1]], e) /\ FigOk(st[e.a[2]], [ v |-> e.w ])
Relisted(f, v) == IF f.k \in {"cp","op"} THEN IntegralPts(v) /\ SameFig(RoundPts(v), f.p, f.k = "cp") ELSE FigOk(f, [ v |-> v ])
Accepts(st, e) ==
  /\ ~Crashed(e)
  /\ CASE e.op \in Modifiers -> ModOk(st, e)
       [] e.op = "obs" -> FigOk(st[e.a[1]], e) /\ ObsOk(st[e.a[1]], e)
       [] e.op = "lpt" -> st[e.a[1]].k = "line" => LptOk(st[e.a[1]], e)
       [] e.op = "bbn" -> BBnOk(st, e)
       [] e.op = "bbk" -> IF "r" \in DOMAIN e THEN e.r = "skip" ELSE BBkOk(st, e)
       [] e.op = "ing" -> st[e.a[1]].k \in {"rect","circ","cp"} => IngOk(st[e.a[1]], e) /\ FigOk(st[e.a[1]], e)
       [] "r" \in DOMAIN e /\ e.r = "skip" -> TRUE
       [] e.op = "eq" -> /\ \/ SoftLine(st[e.a[1]]) \/ SoftLine(st[e.a[2]])
                            \/ e.b = EqFig(st[e.a[1]], st[e.a[2]])
                         /\ e.ne = ~e.b
                         /\ Relisted(st[e.a[1]], e.v) /\ Relisted(st[e.a[2]], e.w)
       [] OTHER ->
          LET f == st[e.a[1]]  g == st[e.a[2]]
          IN /\ Unchanged(st, e)
             /\ CASE e.op = "ins" -> LET x == Inside(f, g) IN x = "any" \/ (e.bT = FALSE /\ e.b = (x = "T"))
                  [] e.op = "itx" -> CanItx(f, g) /\ ItxOk(f, g, [ b |-> e.b, v |-> e.x, fl |-> e.fl \/ SoftLine(f) \/ SoftLine(g) ])
                  [] e.op = "iar" -> IarOk(f, g, e)
                  [] e.op = "uni" -> UniOk(f, g, [ v |-> e.x, ar |-> e.ar ])
                  [] e.op = "iou" -> IouOk(f, g, e)
                  [] e.op = "dst" -> DistOk(f, g, e)
                  [] e.op = "cpt" -> CptOk(f, g, [ v |-> e.x, i1 |-> e.i1, i2 |-> e.i2, d |-> e.d ])
                  [] e.op = "bb2" -> BB2Ok(f, g, e)
Relist(f, v) == IF f.k \in {"cp","op"} THEN [ f EXCEPT !.p = RoundPts(v) ] ELSE f
Apply(st, e) ==
  CASE e.op = "begin" -> InitSt
    [] e.op \in Modifiers -> [ st EXCEPT ![e.a[1]] = Effect(st, e.op, e.a).f ]
    [] e.op = "eq" /\ "v" \in DOMAIN e -> [ st EXCEPT ![e.a[1]] = Relist(@, e.v), ![e.a[2]] = Relist(@, e.w) ]
    [] OTHER -> st
Step(st, o) == IF o[1] \in Modifiers THEN [ st EXCEPT ![o[2]] = Effect(st, o[1], Tail(o)).f ] ELSE st
=============================================================================
