--------------------------------- MODULE Rtp ---------------------------------
(***************************************************************************)
(* A list of objects of any kind, held through the variant type and looked    *)
(* at directly, through the variant functions and functors, and through       *)
(* root-class pointers (of the same and of another numeric type).             *)
(* A figure is [k: kind, p: points, sh: shape, m: product of the semi-axes,    *)
(* q: transformations gone through].  For a circle or ellipse p is <<centre>>   *)
(* and sh = <<a,b,c>> the shape matrix (a b; b c): half sides of the bounding   *)
(* box sqrt(a), sqrt(c), image by the linear map L: L sh L'.                    *)
(***************************************************************************)
EXTENDS Geom
Kinds == << "pt", "line", "seg", "oseg", "rect", "circ", "cp", "op", "ell" >>
TName == [ pt |-> "Point2d", line |-> "Line2d", seg |-> "Segment", oseg |-> "OSegment", rect |-> "FRect", circ |-> "Circle",
           cp |-> "CPolyline", op |-> "OPolyline", ell |-> "Ellipse" ]
Z3 == << 0, 0, 0 >>
Fig(k, p) == [ k |-> k, p |-> p, sh |-> Z3, m |-> 0, q |-> 0 ]
Rnd(k, c, x, y) == [ k |-> k, p |-> << c >>, sh |-> << x*x, 0, y*y >>, m |-> x*y, q |-> 0 ]
InitSt == [ l |-> <<>>, f |-> FALSE, dt |-> "Double" ]
DecPts(a, i, n) == [ j \in 1..n |-> << a[i + 2*j - 2], a[i + 2*j - 1] >> ]
P2(a, i) == << a[i], a[i+1] >>
\* the figure written from position i on
Dec(a, i) ==
  LET k == Kinds[a[i]] IN
  CASE k = "pt" -> Fig(k, << P2(a,i+1) >>)
    [] k \in {"line","oseg"} -> Fig(k, << P2(a,i+1), P2(a,i+3) >>)
    [] k = "seg" -> Fig(k, SortPair(P2(a,i+1), P2(a,i+3)))
    [] k = "rect" -> LET r == MkRect(a[i+1], a[i+2], a[i+3], a[i+4]) IN Fig(k, << <<r[1],r[2]>>, <<r[3],r[4]>> >>)
    [] k = "circ" -> Rnd(k, P2(a,i+1), a[i+3], a[i+3])
    [] k = "ell" -> Rnd(k, P2(a,i+1), Max2(a[i+3],a[i+4]), Min2(a[i+3],a[i+4]))
    [] OTHER -> Fig(k, DecPts(a, i+2, a[i+1]))
ValidPts(v) == /\ Len(v) # 1
               /\ Len(v) > 1 => \A i \in 1..Len(v) : v[i] # v[Nxt(i,Len(v))]
ValidAt(a, i) ==
  LET k == Kinds[a[i]] IN
  CASE k = "pt" -> TRUE
    [] k \in {"line","oseg","seg"} -> P2(a,i+1) # P2(a,i+3)
    [] k = "rect" -> a[i+1] # a[i+3] /\ a[i+2] # a[i+4]
    [] k = "circ" -> a[i+3] > 0
    [] k = "ell" -> a[i+3] > 0 /\ a[i+4] > 0
    [] OTHER -> ValidPts(DecPts(a, i+2, a[i+1]))
Round(f) == f.k \in {"circ","ell"}
Verts(f) == IF f.k = "rect" THEN RectPts(<<f.p[1][1], f.p[1][2], f.p[2][1], f.p[2][2]>>) ELSE f.p

(*--------------------------- affine transformations -----------------------*)
\* six cells, last row 0 0 1
Map(h, x) == << h[1]*x[1] + h[2]*x[2] + h[3], h[4]*x[1] + h[5]*x[2] + h[6] >>
MapAll(h, v) == [ i \in 1..Len(v) |-> Map(h, v[i]) ]
Shape(h, s) == << h[1]*h[1]*s[1] + 2*h[1]*h[2]*s[2] + h[2]*h[2]*s[3],
                  h[1]*h[4]*s[1] + (h[1]*h[5] + h[2]*h[4])*s[2] + h[2]*h[5]*s[3],
                  h[4]*h[4]*s[1] + 2*h[4]*h[5]*s[2] + h[5]*h[5]*s[3] >>
DetA(h) == h[1]*h[5] - h[2]*h[4]
Trans(h, f) ==
  LET g == [ f EXCEPT !.q = @ + 1 ]  w == MapAll(h, Verts(f)) IN
  CASE f.k = "seg" -> [ g EXCEPT !.p = SortPair(w[1], w[2]) ]
    [] f.k = "rect" -> [ g EXCEPT !.k = "cp", !.p = w ]                 \* a rectangle becomes a polygon
    [] Round(f) -> [ g EXCEPT !.k = "ell", !.p = w, !.sh = Shape(h, f.sh), !.m = Abs(DetA(h)) * f.m ]
    [] OTHER -> [ g EXCEPT !.p = w ]

(*------------------------------ transitions -------------------------------*)
Ix(st, i) == i + 1 <= Len(st.l)
Out(st, e) ==      \* << outcome, new list, index whose value is shown (0: none) >>
  LET a == e.a  l == st.l IN
  CASE e.op = "push" -> IF ValidAt(a, 2) THEN << "ok", Append(l, Dec(a, 2)), Len(l)+1 >> ELSE << "throw", l, 0 >>
    [] e.op = "set" -> IF ~ValidAt(a, 3) THEN << "throw", l, 0 >>
                       ELSE IF ~Ix(st, a[1]) THEN << "skip", l, 0 >> ELSE << "ok", [ l EXCEPT ![a[1]+1] = Dec(a, 3) ], a[1]+1 >>
    [] e.op = "asg" -> IF ~Ix(st, a[1]) \/ ~Ix(st, a[2]) THEN << "skip", l, 0 >> ELSE << "ok", [ l EXCEPT ![a[1]+1] = l[a[2]+1] ], a[1]+1 >>
    [] e.op = "swp" -> IF ~Ix(st, a[1]) \/ ~Ix(st, a[2]) THEN << "skip", l, 0 >>
                       ELSE << "ok", [ l EXCEPT ![a[1]+1] = l[a[2]+1], ![a[2]+1] = l[a[1]+1] ], a[1]+1 >>
    [] e.op = "pop" -> IF l = <<>> THEN << "skip", l, 0 >> ELSE << "ok", Tail(l), 0 >>
    [] e.op = "tra" -> IF ~Ix(st, a[1]) THEN << "skip", l, 0 >> ELSE << "ok", [ l EXCEPT ![a[1]+1] = Trans(SubSeq(a,3,8), @) ], a[1]+1 >>
    [] e.op = "tall" -> << "ok", [ i \in 1..Len(l) |-> Trans(SubSeq(a,1,6), l[i]) ], 0 >>
    [] e.op \in {"obs","unw","cast"} -> IF Ix(st, a[1]) THEN << "ok", l, 0 >> ELSE << "skip", l, 0 >>
    [] e.op = "bbn" -> IF \A i \in 1..Len(a) : Ix(st, a[i]) THEN << "ok", l, 0 >> ELSE << "skip", l, 0 >>
    [] e.op = "drw" -> << "ok", l, 0 >>
Apply(st, e) == IF e.op = "begin" THEN [ l |-> <<>>, f |-> e.f, dt |-> e.dt[1] ] ELSE [ st EXCEPT !.l = Out(st, e)[2] ]

(*------------------------------ observations ------------------------------*)
No == -7777777
All(v, x) == \A i \in 1..Len(v) : v[i] = x
Tl(st) == IF st.f THEN 100000 ELSE 1000000
CtrOk(st, q, c) == LET t == 3 + (IF st.f THEN 60 ELSE 0) IN Near(q[1], c[1]*S, t) /\ Near(q[2], c[2]*S, t)
\* float conic coefficients lose the squares of the centre: values of such ellipses are not judged
Vague(st, f) == f.k = "ell" /\ (st.f \/ f.q > 6)
AxesOk(u0, v0, f) ==       \* greatest and smallest semi-axes
  LET u == u0 \div 100  v == v0 \div 100 IN
  /\ u >= v /\ v > 0
  /\ Abs(u*v - f.m*10000) <= 2*(u + v) + 10
  /\ Abs(u*u + v*v - (f.sh[1] + f.sh[3])*10000) <= 3*(u + v) + 10
LineOk(st, q, f) ==
  LET on(x) == Abs(q[1]*x[1] + q[2]*x[2] + q[3]) <= 2*(Abs(x[1]) + Abs(x[2]) + 1)
  IN /\ Abs(q[1]*q[1] + q[2]*q[2] - 1000000) <= 6000
     /\ (st.f /\ f.q > 0) \/ (on(f.p[1]) /\ on(f.p[2]))
ValOk(st, v, f) ==
  CASE f.k = "line" -> LineOk(st, v[1], f)
    [] f.k = "circ" -> PtOk(v[1], f.p[1]) /\ Near(v[2][1], ISqrt(f.sh[1])*S, 3)
    [] f.k = "ell" -> Vague(st, f) \/ (CtrOk(st, v[1], f.p[1]) /\ AxesOk(v[2][1], v[2][2], f))
    [] OTHER -> PtsOk(v, f.p)
\* perimeter, at LS: between those of the circles of radii the geometric and the quadratic mean of the semi-axes
Pi2(x) == (x * 62832) \div 10000
LenSum(ed) == SumSeq([ i \in 1..Len(ed) |-> ISqrt(D2(ed[i][1], ed[i][2]) * (LS*LS)) ])
LensOk(st, v, f) ==
  CASE f.k = "line" -> All(v, No)
    [] f.k = "pt" -> All(v, 0)
    [] Round(f) -> LET r == ISqrt((f.sh[1] + f.sh[3]) * 20000)
                   IN Vague(st, f) \/ \A i \in 1..Len(v) : \/ (i = 6 /\ f.k = "ell")
                                                           \/ (v[i] <= Pi2(r) + 20 /\ v[i] + 40 >= Pi2(ISqrt(f.m) * LS))
    [] f.k = "rect" -> LET n == 2*(f.p[2][1]-f.p[1][1] + f.p[2][2]-f.p[1][2])*LS IN \A i \in 1..Len(v) : Near(v[i], n, 3 + n \div Tl(st))
    [] OTHER -> LET ed == IF f.k \in {"seg","oseg"} THEN << f.p >> ELSE Edges(f.p, f.k = "cp")  s == LenSum(ed)
                IN \A i \in 1..Len(v) : v[i] >= s - 2 - (s \div Tl(st)) /\ v[i] <= s + Len(ed) + 3 + (s \div Tl(st))
ArOk(st, v, f) ==
  LET is(n, t) == \A i \in 1..Len(v) : (i = 6 /\ Round(f)) \/ Near(v[i], n, t + n \div Tl(st)) IN
  CASE f.k = "rect" -> is((f.p[2][1]-f.p[1][1])*(f.p[2][2]-f.p[1][2])*1000, 3)
    [] Round(f) -> Vague(st, f) \/ is(f.m*3141 + (f.m*593) \div 1000, 3 + f.m \div 1000)
    [] f.k = "cp" -> is(IF SimplePoly(f.p) THEN Abs(Area2(f.p))*500 ELSE 0, 3)
    [] OTHER -> All(v, 0)
Size(f) == CASE f.k \in {"pt","circ","ell"} -> 1 [] f.k = "line" -> 0 [] f.k \in {"seg","oseg"} -> 2 [] f.k = "rect" -> 4 [] OTHER -> Len(f.p)
\* bounding boxes at LS, as <<x0,y0,x1,y1>>; <<>> when there is none
Box(f) == IF f.k = "line" \/ f.p = <<>> THEN <<>>
          ELSE IF Round(f) THEN LET x == ISqrt(f.sh[1]*LS*LS)  y == ISqrt(f.sh[3]*LS*LS)  c == f.p[1]
                                IN << c[1]*LS - x, c[2]*LS - y, c[1]*LS + x, c[2]*LS + y >>
          ELSE LET b == BBox(f.p) IN << b[1]*LS, b[2]*LS, b[3]*LS, b[4]*LS >>
Join(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE << Min2(a[1],b[1]), Min2(a[2],b[2]), Max2(a[3],b[3]), Max2(a[4],b[4]) >>
BoxIs(st, q, b) == \A i \in 1..4 : Near(q[i] \div (S \div LS), b[i], 3)
BbOk(st, v, f) == \A i \in 1..Len(v) :
   IF f.k \in {"pt","line","seg","oseg"} \/ f.p = <<>> \/ ~HasArea(Box(f)) THEN v[i] = << No >> ELSE Vague(st, f) \/ BoxIs(st, v[i], Box(f))
PpOk(st, v, f) ==
  CASE f.k = "line" \/ f.p = <<>> -> v = << No >>
    [] f.k \in {"seg","oseg"} -> PtsOk(<< <<v[1],v[2]>>, <<v[3],v[4]>> >>, f.p)
    [] OTHER -> Vague(st, f) \/ BoxIs(st, v, Box(f))
ObsOk(st, e, f) ==
  /\ "txt" \in DOMAIN e => All(e.txt, TRUE)
  /\ e.txv
  /\ All(e.t, TName[f.k])
  /\ All(e.dt, st.dt)
  /\ LensOk(st, e.len, f)
  /\ ArOk(st, e.ar, f)
  /\ All(e.sz, Size(f))
  /\ BbOk(st, e.bb, f)
  /\ PpOk(st, e.pp, f)
  /\ ValOk(st, e.v, f)
UnwOk(st, e, f) == IF Kinds[e.a[2]] = f.k THEN ~e.xT /\ ValOk(st, e.x, f) ELSE e.xT
CastOk(e, f) == IF Kinds[e.a[2]] = f.k THEN e.x = << e.a[3] = 0, e.a[3] # 0 >> ELSE e.x = << FALSE, FALSE >>
Picked(st, a) == IF a = <<>> THEN st.l ELSE [ i \in 1..Len(a) |-> st.l[a[i]+1] ]
BbnOk(st, e) ==
  LET w == Picked(st, e.a)  b == FoldLeft(LAMBDA acc, f : Join(acc, Box(f)), <<>>, w)
  IN IF b = <<>> THEN e.bbT
     ELSE IF ~HasArea(b) THEN e.bbT
     ELSE ~e.bbT /\ ((\E i \in 1..Len(w) : Vague(st, w[i])) \/ BoxIs(st, e.bb, b))
Drawn(f) == f.k \notin {"pt","line"} /\ f.p # <<>>
DrwOk(st, e) == /\ All(e.same, TRUE)
                /\ e.ne >= Cardinality({ i \in 1..Len(st.l) : Drawn(st.l[i]) })
Accepts(st, e) ==
  LET o == Out(st, e) IN
  /\ e.r = o[1]
  /\ e.r = "ok" =>
       CASE o[3] # 0 -> ValOk(st, e.v, o[2][o[3]])
         [] e.op = "obs" -> ObsOk(st, e, st.l[e.a[1]+1])
         [] e.op = "unw" -> UnwOk(st, e, st.l[e.a[1]+1])
         [] e.op = "cast" -> CastOk(e, st.l[e.a[1]+1])
         [] e.op = "bbn" -> BbnOk(st, e)
         [] e.op = "drw" -> DrwOk(st, e)
         [] OTHER -> TRUE
=============================================================================
