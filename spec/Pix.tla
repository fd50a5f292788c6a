-------------------------------- MODULE Pix --------------------------------
(***************************************************************************)
(* Drawing on a raster image (OpenCV back-end).  A view (two images, and a   *)
(* matrix owned by the user that an image may be built on) shows a size, a    *)
(* base colour and the pixels that differ from it.  A drawing call is a set   *)
(* of pieces (segments, circles, ellipses, lines, texts), each with a colour   *)
(* and a thickness: the recorded change must stay close to the pieces, must    *)
(* have their colours, and must reach every point of them that is inside the   *)
(* image.  Nothing else changes: not the other views, not the object drawn.    *)
(* Lengths are in sixteenths of a pixel; arguments in quarters of a pixel.     *)
(***************************************************************************)
EXTENDS Geom
U == 4
Px == 16
Fresh(w, h, c) == [ w |-> w, h |-> h, base |-> c, m |-> [ p \in {} |-> 0 ] ]
D0 == [ col |-> 1, th |-> 1, lt |-> 1, pts |-> FALSE, idx |-> FALSE, ang |-> FALSE, st |-> 0, ps |-> 4, dl |-> 5, fs |-> 20 ]
InitSt == [ d |-> D0, v |-> << Fresh(20,20,0), Fresh(20,20,0), Fresh(20,20,0) >>, sh |-> 0, f |-> FALSE ]
\* palette (see the interpreter): 0 white, 1 (80,80,80), 6 (10,10,10), 7 (20,20,20), 99: any other colour
Near10 == 6
Idx20 == 7
(*--------------------------------- pieces ---------------------------------*)
\* k: kind, n: numbers, c: colour, w: thickness (pixels), aa: smoothed, x: exact (whole pixels), t: TRUE if coordinates are truncated
Pc(k, n, d, x) == [ k |-> k, n |-> n, c |-> d.col, w |-> Max2(d.th, 1), aa |-> d.lt = 1, x |-> x ]
Whole(n) == \A i \in 1..Len(n) : n[i] % Px = 0
Seg(d, p, q) == << Pc("seg", p \o q, d, Whole(p \o q)) >>
Off(p, x, y) == << p[1] + Px*x, p[2] + Px*y >>
InIm(im, p) == p[1] >= 0 /\ p[1] < im.w * Px /\ p[2] >= 0 /\ p[2] < im.h * Px
PlusOf(p, r) == << Off(p,-r,0), Off(p,r,0), Off(p,0,-r), Off(p,0,r) >>
TimesOf(p, r) == << Off(p,-r,r), Off(p,r,-r), Off(p,r,r), Off(p,-r,-r) >>
CrossP(d, v) == Seg(d, v[1], v[2]) \o Seg(d, v[3], v[4])
LoopP(d, v) == Seg(d, v[1], v[3]) \o Seg(d, v[3], v[2]) \o Seg(d, v[2], v[4]) \o Seg(d, v[1], v[4])
Circ(d, p, r) == << Pc("circ", p \o <<r>>, d, Whole(p \o <<r>>)) >>
PtP0(d, im, p) ==
  LET r == d.dl  r2 == (7*r + 5) \div 10 IN
  IF ~InIm(im, p) THEN <<>>
  ELSE CASE d.st = 0 -> CrossP(d, PlusOf(p, r))
         [] d.st = 1 -> CrossP(d, TimesOf(p, r2))
         [] d.st = 2 -> CrossP(d, PlusOf(p, r)) \o CrossP(d, TimesOf(p, r2))
         [] d.st = 3 -> LoopP(d, PlusOf(p, r))
         [] d.st = 4 -> LoopP(d, TimesOf(p, r2))
         [] OTHER -> Circ(d, p, Px * d.ps)
\* a dot is a circle, and shows its centre if points are shown
PtP(d, im, p) == PtP0(d, im, p) \o (IF d.st = 5 /\ d.pts /\ InIm(im, p) THEN PtP0([ d EXCEPT !.st = 0 ], im, p) ELSE <<>>)
SegP(d, im, p, q) == Seg(d, p, q) \o (IF d.pts THEN PtP(d, im, p) \o PtP(d, im, q) ELSE <<>>)
OSegP(d, p, q) ==
  LET v == Sub(q, p)  l == ISqrt(v[1]*v[1] + v[2]*v[2])
      t == << (8*Px*v[1]) \div l, (8*Px*v[2]) \div l >>
      n == << -t[2], t[1] >>  r == Sub(q, t)
      s(a, b) == << [ Seg(d, a, b)[1] EXCEPT !.x = FALSE ] >>
  IN Seg(d, p, q) \o s(Add(p, n), Sub(p, n)) \o s(Add(r, n), q) \o s(Sub(r, n), q)
RectP(d, im, p, q) ==
  LET a == << Min2(p[1],q[1]), Min2(p[2],q[2]) >>  b == << Max2(p[1],q[1]), Max2(p[2],q[2]) >>
      o == << Pc("rect", a \o b, d, Whole(a \o b)) >>
  IN o \o (IF d.pts THEN PtP(d, im, a) \o PtP(d, im, b) ELSE <<>>)
CirP(d, im, p, r) == Circ(d, p, r) \o (IF d.pts THEN PtP([ d EXCEPT !.st = 0 ], im, p) ELSE <<>>)
Text(d, c, p, len, fs, w) == << [ Pc("text", p \o << len, fs >>, d, FALSE) EXCEPT !.c = c, !.w = w, !.aa = FALSE ] >>
PolyP(d, im, closed, ps) ==
  LET n == Len(ps)
      nx(i) == IF i = n THEN 1 ELSE i + 1
  IN IF n < 2 THEN <<>>
     ELSE FlattenSeq([ i \in 1..(IF closed THEN n ELSE n-1) |-> SegP(d, im, ps[i], ps[nx(i)]) ])
          \o (IF d.pts THEN PtP([ d EXCEPT !.col = Near10, !.st = IF d.st = 5 THEN 0 ELSE d.st + 1 ], im, ps[1]) ELSE <<>>)
          \o (IF d.idx THEN FlattenSeq([ i \in 1..n |-> Text(d, Idx20, ps[i], 1, 20, 2) ]) ELSE <<>>)
          \o (IF d.ang THEN FlattenSeq([ i \in 1..(IF closed THEN n ELSE n-2) |-> Text(d, d.col, ps[nx(i)], 11, d.fs, 1) ]) ELSE <<>>)
P4(a, i) == << U*a[i], U*a[i+1] >>
Pairs(a, i, n) == [ j \in 1..n |-> P4(a, i + 2*(j-1)) ]
Width(a, i, kd) == CASE kd = 1 -> 2 [] kd \in {2,3,4,6} -> 4 [] kd = 5 -> 3 [] kd = 7 -> 5 [] OTHER -> 1 + 2*a[i]
ObjP(d, im, kd, a, i) ==
  CASE kd = 1 -> PtP(d, im, P4(a, i))
    [] kd = 2 -> << Pc("line", P4(a, i) \o P4(a, i+2), d, FALSE) >>
    [] kd = 3 -> SegP(d, im, P4(a, i), P4(a, i+2))
    [] kd = 4 -> OSegP(d, P4(a, i), P4(a, i+2))
    [] kd = 5 -> CirP(d, im, P4(a, i), U*a[i+2])
    [] kd = 6 -> RectP(d, im, P4(a, i), P4(a, i+2))
    [] kd = 7 -> << Pc("ell", P4(a, i) \o << U*Max2(a[i+2], a[i+3]), U*Min2(a[i+2], a[i+3]), a[i+4] % 12 >>, d, FALSE) >>
    [] kd = 8 -> PolyP(d, im, TRUE, Pairs(a, i+1, a[i]))
    [] OTHER -> PolyP(d, im, FALSE, Pairs(a, i+1, a[i]))
DLen(k) == IF k < 10 THEN 1 ELSE 2
IdxP(d, kd, a, i, k) ==
  IF ~d.idx THEN <<>>
  ELSE CASE kd = 1 -> Text(d, d.col, P4(a, i), DLen(k), d.fs, 1)
         [] kd = 3 -> Text(d, d.col, << (U*(a[i] + a[i+2])) \div 2, (U*(a[i+1] + a[i+3])) \div 2 >>, DLen(k), d.fs, 1)
         [] OTHER -> <<>>
Pieces(st, e) ==
  LET a == e.a  im == st.v[a[1]]  d == st.d IN
  CASE e.op = "dr" -> ObjP(d, im, a[3], a, 4)
    [] e.op = "drc" -> LET w == Width(a, 5, a[3])
                           dk(k) == IF a[2] = 9 THEN [ d EXCEPT !.col = 1 + (k % 4) ] ELSE d
                       IN FlattenSeq([ k \in 1..a[4] |-> ObjP(dk(k-1), im, a[3], a, 5 + w*(k-1)) \o IdxP(dk(k-1), a[3], a, 5 + w*(k-1), k-1) ])
    [] e.op = "drp" -> ObjP(d, im, a[3], a, 5) \o ObjP(d, im, a[4], a, 5 + Width(a, 5, a[3]))
    [] e.op = "txt" -> Text(d, d.col, P4(a, 3), a[5], d.fs, 1)
    [] OTHER -> <<>>
Draws == {"dr","drc","drp","txt"}
Wholes == {"new","ext","siz","clr"}

(*--------------------------------- may ------------------------------------*)
Len2(p, q) == ISqrt(D2(p, q))
NearSeg(p, a, b, t) ==
  LET u == Sub(b, a)  v == Sub(p, a)  k == DotV(u, v) IN
  IF k <= 0 THEN D2(p, a) <= t*t ELSE IF k >= DotV(u, u) THEN D2(p, b) <= t*t
  ELSE Abs(CrossV(u, v)) <= t * (Len2(a, b) + 1)
NearLine(p, a, b, t) == Abs(Cross(a, b, p)) <= t * (Len2(a, b) + 1)
NearCirc(p, c, r, t) == LET x == D2(p, c) IN x <= (r+t)*(r+t) /\ (r <= t \/ x >= (r-t)*(r-t))
\* cosine and sine of k*15 degrees, in thousandths
Cos15 == << 1000, 966, 866, 707, 500, 259, 0, -259, -500, -707, -866, -966 >>
CosK(k) == Cos15[(k % 12) + 1] * (IF (k % 24) >= 12 THEN -1 ELSE 1)
SinK(k) == CosK(k + 18)
EllIn(u, v, a, b) == a > 0 /\ b > 0 /\ LET x == (u * 1000) \div a  y == (v * 1000) \div b IN Abs(x) <= 1100 /\ Abs(y) <= 1100 /\ x*x + y*y <= 1000000
NearEll(p, n, t) ==
  LET q == << p[1] - n[1], p[2] - n[2] >>  c == CosK(n[5])  s == SinK(n[5])
      x == (q[1]*c + q[2]*s) \div 1000  y == (q[2]*c - q[1]*s) \div 1000
  IN EllIn(x, y, n[3] + t, n[4] + t) /\ (n[4] <= t + 3*Px \/ ~EllIn(x, y, n[3] - t, n[4] - t))
EdgesOf(n) == LET x == n[1] y == n[2] z == n[3] w == n[4] IN << <<x,y,z,y>>, <<z,y,z,w>>, <<z,w,x,w>>, <<x,w,x,y>> >>
TextW(n) == (n[3] * n[4] * Px * 9) \div 10 + 4*Px      \* 0.03*24*1.2 pixels for a character
Slack(g) == g.w * 8 + (IF g.aa THEN 20 ELSE 0) +
            (CASE g.k = "ell" -> 54 [] g.k \in {"circ","rect"} -> IF g.x THEN (IF g.w > 1 THEN 24 ELSE 16) ELSE IF g.w > 1 THEN 48 ELSE 34 [] g.k = "line" -> IF g.w = 1 THEN 24 ELSE 32 [] OTHER -> IF g.x THEN (IF g.w = 1 THEN 2 ELSE 20) ELSE IF g.w = 1 THEN 24 ELSE 32)
May(p, g) ==
  LET n == g.n  t == Slack(g) IN
  CASE g.k = "seg" -> NearSeg(p, SubSeq(n,1,2), SubSeq(n,3,4), t)
    [] g.k = "line" -> NearLine(p, SubSeq(n,1,2), SubSeq(n,3,4), t)
    [] g.k = "circ" -> NearCirc(p, SubSeq(n,1,2), n[3], t)
    [] g.k = "ell" -> NearEll(p, n, t)
    [] g.k = "rect" -> \E i \in 1..4 : LET z == EdgesOf(n)[i] IN NearSeg(p, SubSeq(z,1,2), SubSeq(z,3,4), t)
    [] OTHER -> p[1] >= n[1] - 3*Px /\ p[1] <= n[1] + TextW(n) /\ p[2] <= n[2] + ((n[4]*Px) \div 3) + 3*Px /\ p[2] >= n[2] - n[4]*Px - 3*Px
(*--------------------------------- must -----------------------------------*)
\* the points of a piece that have to be painted, with the distance within which a pixel has to be found
AlongN(a, b, m) == { << a[1] + ((b[1]-a[1])*i) \div m, a[2] + ((b[2]-a[2])*i) \div m >> : i \in 0..m }
Steps(a, b) == Max2(1, Max2(Abs(b[1]-a[1]), Abs(b[2]-a[2])) \div Px)
LinePts(im, a, b) ==
  LET dx == b[1]-a[1]  dy == b[2]-a[2] IN
  IF Abs(dx) >= Abs(dy) THEN { << Px*i, a[2] + ((Px*i - a[1]) * dy) \div dx >> : i \in 1..(im.w - 2) }
  ELSE { << a[1] + ((Px*i - a[2]) * dx) \div dy, Px*i >> : i \in 1..(im.h - 2) }
Dir8(r) == LET h == (r * 707) \div 1000 IN { <<r,0>>, <<-r,0>>, <<0,r>>, <<0,-r>>, <<h,h>>, <<h,-h>>, <<-h,h>>, <<-h,-h>> }
EllPts(n) ==
  LET c == CosK(n[5])  s == SinK(n[5])
      at(u, v) == << n[1] + (u*c - v*s) \div 1000, n[2] + (u*s + v*c) \div 1000 >>
  IN { at(n[3],0), at(-n[3],0), at(0,n[4]), at(0,-n[4]) }
\* the far sides of a thick piece
Sides(g) ==
  LET n == g.n  h == ((g.w - 1) \div 2) * Px IN
  IF g.w < 3 THEN {}
  ELSE CASE g.k = "seg" -> LET m == << (n[1]+n[3]) \div 2, (n[2]+n[4]) \div 2 >> IN
                           IF n[1] = n[3] THEN { << m[1]-h, m[2] >>, << m[1]+h, m[2] >> } ELSE IF n[2] = n[4] THEN { << m[1], m[2]-h >>, << m[1], m[2]+h >> } ELSE {}
         [] g.k = "circ" -> IF n[3] < 2*Px THEN {} ELSE { << n[1] + n[3] + h, n[2] >>, << n[1], n[2] - n[3] - h >> }
         [] OTHER -> {}
MustPts(im, g) ==
  LET n == g.n  sg(z) == AlongN(SubSeq(z,1,2), SubSeq(z,3,4), Steps(SubSeq(z,1,2), SubSeq(z,3,4))) IN
  Sides(g) \cup
  CASE g.k = "seg" -> sg(n)
    [] g.k = "line" -> LinePts(im, SubSeq(n,1,2), SubSeq(n,3,4))
    [] g.k = "circ" -> IF n[3] < 2*Px THEN {} ELSE { << n[1] + z[1], n[2] + z[2] >> : z \in Dir8(n[3]) }
    [] g.k = "ell" -> EllPts(n)
    [] g.k = "rect" -> UNION { sg(EdgesOf(n)[i]) : i \in 1..4 }
    [] OTHER -> {}
Tol(g) == CASE g.k = "ell" -> 40 [] g.k \in {"circ","rect"} -> IF g.x /\ ~g.aa THEN 16 ELSE 28 [] g.k = "seg" -> IF g.x /\ ~g.aa THEN 9 ELSE 26 [] OTHER -> 24
Inner(im, p, m) == p[1] >= m /\ p[2] >= m /\ p[1] <= Px*(im.w-1) - m /\ p[2] <= Px*(im.h-1) - m
Around(p, t) == LET k == (t \div Px) + 1  x == p[1] \div Px  y == p[2] \div Px IN
   { z \in { << i, j >> : i \in (x-k)..(x+k+1), j \in (y-k)..(y+k+1) } : Abs(z[1]*Px - p[1]) <= t /\ Abs(z[2]*Px - p[2]) <= t }
\* a text shows if its position leaves room for it
TextIn(im, n) == n[1] >= Px /\ n[1] <= Px*(im.w - 10) /\ n[2] >= Px*14 /\ n[2] <= Px*(im.h - 2)

(*------------------------------ observations ------------------------------*)
NewMap(v, px) == LET s == { << px[i][1], px[i][2] >> : i \in 1..Len(px) }
                     c(p) == (CHOOSE i \in 1..Len(px) : px[i][1] = p[1] /\ px[i][2] = p[2])
                 IN [ p \in s \cup DOMAIN v.m |-> IF p \in s THEN px[c(p)][3] ELSE v.m[p] ]
\* a piece that leaves the image is cut first, and its ends rounded
AllIn(v, g) == LET n == g.n in(x, y) == x >= 0 /\ y >= 0 /\ x < Px*v.w /\ y < Px*v.h IN
  CASE g.k \in {"seg","rect"} -> in(n[1], n[2]) /\ in(n[3], n[4])
    [] g.k = "circ" -> in(n[1]-n[3], n[2]-n[3]) /\ in(n[1]+n[3], n[2]+n[3])
    [] OTHER -> FALSE
\* the change of one view by pieces gs
ChangeOk(v, gs0, px) ==
  LET gs == [ i \in 1..Len(gs0) |-> [ gs0[i] EXCEPT !.x = @ /\ AllIn(v, gs0[i]) ] ]
      m == NewMap(v, px)
      colr(p) == IF p \in DOMAIN m THEN m[p] ELSE v.base
      chg == { << px[i][1], px[i][2] >> : i \in 1..Len(px) }
      cols(i) == { gs[j].c : j \in i..Len(gs) }
      seen(i, p, t) == \E z \in Around(p, t) : z[1] >= 0 /\ z[2] >= 0 /\ z[1] < v.w /\ z[2] < v.h /\ (colr(z) \in cols(i) \/ (gs[i].aa /\ (z \in chg \/ colr(z) = 99)) \/ (colr(z) = 99 /\ \E j \in i..Len(gs) : gs[j].aa))
  IN /\ \A i \in 1..Len(px) : LET p == << Px*px[i][1], Px*px[i][2] >> IN
            \E j \in 1..Len(gs) : (gs[j].aa \/ gs[j].c = px[i][3] \/ (px[i][3] = 99 /\ \E k \in 1..Len(gs) : gs[k].aa)) /\ May(p, gs[j])
     /\ \A i \in 1..Len(gs) : LET g == gs[i] IN
            IF g.k = "text" THEN TextIn(v, g.n) => \E z \in { z \in DOMAIN m : m[z] \in cols(i) } \cup (IF v.base \in cols(i) THEN {<<0,0>>} ELSE {}) : v.base \in cols(i) \/ May(<< Px*z[1], Px*z[2] >>, g)
            ELSE \A p \in MustPts(v, g) : Inner(v, p, Px) => seen(i, p, Tol(g))
Lost(st, e) == \* lines through a corner of the image, in single precision: the crossing may be missed
  e.op \in Draws /\ st.f /\ \E i \in 1..Len(Pieces(st, e)) : Pieces(st, e)[i].k = "line"
Linked(st, k) == IF st.sh # 0 /\ k \in {st.sh, 3} THEN {st.sh, 3} ELSE {k}
ViewOk(v, o) == o.w = v.w /\ o.h = v.h
Palette == 0..12
Target(st, e) ==     \* views after a whole-image operation
  LET a == e.a  k == a[1] IN
  CASE e.op = "new" -> [ st EXCEPT !.v[k] = Fresh(a[2], a[3], 0), !.sh = IF st.sh = k THEN 0 ELSE @ ]
    [] e.op = "siz" -> [ st EXCEPT !.v[k] = Fresh(a[2], a[3], 0), !.sh = IF st.sh = k THEN 0 ELSE @ ]
    [] e.op = "ext" -> LET o == 3 - k IN [ st EXCEPT !.v[k] = Fresh(a[2], a[3], a[4]), !.v[3] = Fresh(a[2], a[3], a[4]), !.v[o] = IF st.sh = o THEN Fresh(20,20,0) ELSE @, !.sh = k ]
    [] OTHER -> LET c == IF a[2] = 0 THEN 0 ELSE a[3]  L == Linked(st, k) IN
                [ st EXCEPT !.v = [ j \in 1..3 |-> IF j \in L THEN Fresh(st.v[j].w, st.v[j].h, c) ELSE st.v[j] ] ]
WholeOk(st, e) ==
  LET t == Target(st, e) IN
  \A j \in 1..3 : /\ e.o[j].w = t.v[j].w /\ e.o[j].h = t.v[j].h
                  /\ IF t.v[j] # st.v[j] \/ j \in Linked(t, e.a[1]) THEN e.o[j].u = t.v[j].base ELSE e.o[j].px = <<>>
SetDp(d, a) == [ d EXCEPT !.col = a[1], !.th = a[2], !.lt = a[3], !.pts = (a[4] = 1), !.idx = (a[5] = 1), !.ang = (a[6] = 1), !.st = a[7], !.ps = a[8], !.dl = a[8], !.fs = a[9] ]
Accepts(st, e) ==
  CASE e.op = "begin" -> TRUE
    [] e.op = "dp" -> e.r = "ok" /\ \A j \in 1..3 : e.o[j].px = <<>> /\ ViewOk(st.v[j], e.o[j])
    [] e.op \in Wholes -> e.r = "ok" /\ WholeOk(st, e)
    [] e.op \in Draws -> LET k == e.a[1] gs == Pieces(st, e) IN
         /\ e.r = "ok" /\ e.same
         /\ \A j \in 1..3 : ViewOk(st.v[j], e.o[j]) /\ (IF j \in Linked(st, k) THEN e.o[j].px = e.o[k].px ELSE e.o[j].px = <<>>)
         /\ (Lost(st, e) /\ e.o[k].px = <<>>) \/ ChangeOk(st.v[k], gs, e.o[k].px)
    [] e.op = "sz" -> LET v == st.v[e.a[1]] IN e.r = "ok" /\ e.sz = << v.w, v.h, v.w, v.h, v.w, v.h >> /\ e.fr = << 0, 0, v.w * S, v.h * S >>
    [] e.op = "wr" -> e.r = "ok" /\ e.ok
    [] OTHER -> FALSE
Apply(st, e) ==
  CASE e.op = "begin" -> [ InitSt EXCEPT !.f = e.f ]
    [] e.op = "dp" -> [ st EXCEPT !.d = SetDp(@, e.a) ]
    [] e.op \in Wholes -> Target(st, e)
    [] e.op \in Draws -> [ st EXCEPT !.v = [ j \in 1..3 |-> IF j \in Linked(st, e.a[1]) THEN [ st.v[j] EXCEPT !.m = NewMap(st.v[j], e.o[j].px) ] ELSE st.v[j] ] ]
    [] OTHER -> st
=============================================================================
