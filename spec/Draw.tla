-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* Drawing: settings objects, installed default settings, and SVG images.     *)
(* An image is its size and the list of the elements it holds, in order; a     *)
(* drawing appends the elements of the object under the settings that govern   *)
(* the call, and changes nothing else.  The document written from an image     *)
(* must parse as XML and hold exactly these elements; reading it back gives    *)
(* the primitives of Imp(els).                                                 *)
(* Lengths are in thousandths of a pixel; arguments in quarters of a pixel.    *)
(***************************************************************************)
EXTENDS Geom
D0 == [ col |-> <<80,80,80>>, th |-> 1, ps |-> 4, dl |-> 5, st |-> 0, sel |-> FALSE, pts |-> FALSE, idx |-> FALSE, ang |-> FALSE, fs |-> 20, at |-> 0 ]
Img0 == [ w |-> 500, h |-> 500, els |-> <<>>, ok |-> TRUE ]
InitSt == [ def |-> D0, dp |-> [ i \in 1..3 |-> D0 ], im |-> [ i \in 1..2 |-> Img0 ], f |-> FALSE ]
U == 250                       \* thousandths in a quarter
NoG == -99999                  \* no angle text
AnyG == -88888                 \* an angle that is not followed
\* user attributes: 1 data-k="1"  2 fill="red"  3 data-k="3" fill="rgb(1,2,3)"  4 stroke-dasharray="5,5"
AtA(at) == IF at = 2 THEN 0 ELSE at
AtF(at, none) == IF at \in {2,3} THEN at ELSE IF none THEN 1 ELSE 0
El(k, n, o, c, w, f, a, x, g) == [ k |-> k, n |-> n, o |-> o, c |-> c, w |-> w, f |-> f, a |-> a, x |-> x, g |-> g, cl |-> FALSE, sw |-> FALSE ]
LineEl(d, p, q) == El("line", p \o q, FALSE, d.col, d.th, AtF(d.at, FALSE), AtA(d.at), <<>>, NoG)
BareLine(d, p, q, o) == El("line", p \o q, o, d.col, d.th, 0, 0, <<>>, NoG)
ShapeEl(d, k, n) == El(k, n, FALSE, d.col, d.th, AtF(d.at, TRUE), AtA(d.at), <<>>, NoG)
TextEl(d, p, x) == El("text", p, FALSE, d.col, d.fs, 0, 0, x, NoG)
Digs(n) == LET RECURSIVE F(_) F(k) == IF k < 10 THEN << 48 + k >> ELSE Append(F(k \div 10), 48 + (k % 10)) IN F(n)

(*------------------------- elements of the objects ------------------------*)
InIm(im, p) == p[1] >= 0 /\ p[1] < im.w * 1000 /\ p[2] >= 0 /\ p[2] < im.h * 1000
Off(p, x, y) == << p[1] + 1000*x, p[2] + 1000*y >>
PlusOf(p, r) == << Off(p,-r,0), Off(p,r,0), Off(p,0,-r), Off(p,0,r) >>
TimesOf(p, r) == << Off(p,-r,r), Off(p,r,-r), Off(p,r,r), Off(p,-r,-r) >>
CrossEls(d, v) == << LineEl(d, v[1], v[2]), LineEl(d, v[3], v[4]) >>
LoopEls(d, v) == << LineEl(d, v[1], v[3]), LineEl(d, v[3], v[2]), LineEl(d, v[2], v[4]), LineEl(d, v[1], v[4]) >>
PtEls(d, im, p) ==
  LET r == d.dl  r2 == (7*r + 5) \div 10 IN
  IF ~InIm(im, p) THEN <<>>
  ELSE CASE d.st = 0 -> CrossEls(d, PlusOf(p, r))
         [] d.st = 1 -> CrossEls(d, TimesOf(p, r2))
         [] d.st = 2 -> CrossEls(d, PlusOf(p, r)) \o CrossEls(d, TimesOf(p, r2))
         [] d.st = 3 -> LoopEls(d, PlusOf(p, r))
         [] d.st = 4 -> LoopEls(d, TimesOf(p, r2))
         [] d.st = 5 -> << ShapeEl(d, "circle", p \o << d.ps * 1000 >>) >>
SegEls(d, im, p0, q0) ==
  LET s == SortPair(p0, q0) IN << LineEl(d, s[1], s[2]) >> \o (IF d.pts THEN PtEls(d, im, s[1]) \o PtEls(d, im, s[2]) ELSE <<>>)
\* arrows: only for directions whose length is an integer number of quarters
QLen(v) == ISqrt(v[1]*v[1] + v[2]*v[2])
ArrowOk(v) == QLen(v) * QLen(v) = v[1]*v[1] + v[2]*v[2]
OSegEls(d, p, q, v) ==        \* v: the direction, in quarters
  LET l == QLen(v)
      t == << (8000*v[1]) \div l, (8000*v[2]) \div l >>       \* eight pixels along
      n == << -t[2], t[1] >>
      r == Sub(q, t)
  IN << [ LineEl(d, p, q) EXCEPT !.o = TRUE ], BareLine(d, Add(p, n), Sub(p, n), FALSE),
        [ BareLine(d, Add(r, n), q, FALSE) EXCEPT !.sw = TRUE ], [ BareLine(d, Sub(r, n), q, FALSE) EXCEPT !.sw = TRUE ] >>
\* angle between successive directions, in hundredths of a degree
AngOf(u, v) ==
  LET c == CrossV(u, v)  t == DotV(u, v)
      a == IF c = 0 THEN (IF t > 0 THEN 0 ELSE 18000) ELSE IF t = 0 THEN 9000 ELSE IF Abs(c) = Abs(t) THEN (IF t > 0 THEN 4500 ELSE 13500) ELSE AnyG
  IN IF a = AnyG THEN AnyG ELSE IF c < 0 THEN -a ELSE a
Trunc(v) == IF v >= 0 THEN (v \div 1000) * 1000 ELSE -((-v) \div 1000) * 1000
\* ps: the points, in quarters
PolyEls(d, im, closed, qs) ==
  LET n == Len(qs)
      ps == [ i \in 1..n |-> << U*qs[i][1], U*qs[i][2] >> ]
      dir(i) == Sub(qs[IF i = n THEN 1 ELSE i + 1], qs[i])
      nseg == IF closed THEN n ELSE n - 1
      angAt(i) == [ TextEl(d, ps[IF i = n THEN 1 ELSE i + 1], <<>>) EXCEPT !.g = AngOf(dir(i), dir(IF i = n THEN 1 ELSE i + 1)) ]
  IN IF n < 2 THEN <<>>
     ELSE << ShapeEl(d, IF closed THEN "polygon" ELSE "polyline", FlattenSeq(ps)) >>
          \o (IF d.idx THEN [ i \in 1..n |-> El("text", << Trunc(ps[i][1]), Trunc(ps[i][2]) >>, FALSE, <<>>, 0, 0, 0, Digs(i - 1), NoG) ] ELSE <<>>)
          \o (IF d.pts THEN FlattenSeq([ i \in 1..n |-> PtEls(d, im, ps[i]) ]) ELSE <<>>)
          \o (IF d.ang THEN [ i \in 1..(IF closed THEN n ELSE n - 2) |-> angAt(i) ] ELSE <<>>)
\* a line: its part inside the image; <<>> if it only meets a corner, or not at all
Lost == << [ El("lost", <<>>, FALSE, <<>>, 0, 0, 0, <<>>, NoG) EXCEPT !.cl = TRUE ] >>
Frac(a, b) == LET g == Gcd(a, b) IN IF g = 0 THEN <<0,1>> ELSE << Sgn(b) * (a \div g), Abs(b) \div g >>
LineEls(d, im, p, q, f) ==
  LET a == q[2] - p[2]  b == p[1] - q[1]  c == -(a*p[1] + b*p[2])
      w == 4*(im.w - 1)  h == 4*(im.h - 1)
      yAt(x) == Frac(-(c + a*x), b)       xAt(y) == Frac(-(c + b*y), a)
      in(z, m) == z[1] >= 0 /\ z[1] <= m * z[2]
      vs == IF b = 0 THEN {} ELSE { << <<x,1>>, yAt(x) >> : x \in {0, w} }
      hs == IF a = 0 THEN {} ELSE { << xAt(y), <<y,1>> >> : y \in {0, h} }
      ok == { z \in vs : in(z[2], h) } \cup { z \in hs : in(z[1], w) }
      onEdge == (a = 0 /\ p[2] \in {0, h}) \/ (b = 0 /\ p[1] \in {0, w})
      corner == \E z \in ok : z[1] \in { <<0,1>>, <<w,1>> } /\ z[2] \in { <<0,1>>, <<h,1>> }
      v(z) == (z[1] \div z[2]) * U + ((z[1] % z[2]) * U) \div z[2]
      pt(z) == << v(z[1]), v(z[2]) >>
  IN IF onEdge \/ (corner /\ f) THEN Lost
     ELSE IF Cardinality(ok) # 2 THEN <<>>
     ELSE LET z1 == CHOOSE z \in ok : TRUE  z2 == CHOOSE z \in ok : z # z1 IN << [ LineEl(d, pt(z1), pt(z2)) EXCEPT !.cl = TRUE ] >>
P4(a, i) == << U*a[i], U*a[i+1] >>
Pairs(a, i, n) == [ j \in 1..n |-> << a[i + 2*(j-1)], a[i + 2*(j-1) + 1] >> ]
\* number of arguments of an object of kind kd, at a[i] (kd in front)
Width(a, i, kd) == CASE kd = 1 -> 2 [] kd \in {2,3,4,6} -> 4 [] kd = 5 -> 3 [] kd = 7 -> 5 [] OTHER -> 1 + 2*a[i]
\* elements of the object of kind kd with arguments from a[i]
ObjEls(d, im, kd, a, i, f) ==
  CASE kd = 1 -> PtEls(d, im, P4(a, i))
    [] kd = 2 -> LineEls(d, im, << a[i], a[i+1] >>, << a[i+2], a[i+3] >>, f)
    [] kd = 3 -> SegEls(d, im, P4(a, i), P4(a, i+2))
    [] kd = 4 -> LET v == << a[i+2] - a[i], a[i+3] - a[i+1] >> IN IF ArrowOk(v) THEN OSegEls(d, P4(a, i), P4(a, i+2), v) ELSE Lost
    [] kd = 5 -> << ShapeEl(d, "circle", P4(a, i) \o << U*a[i+2] >>) >>
    [] kd = 6 -> LET x0 == Min2(a[i], a[i+2])  y0 == Min2(a[i+1], a[i+3]) IN
                 << ShapeEl(d, "rect", << U*x0, U*y0, U*Abs(a[i+2] - a[i]), U*Abs(a[i+3] - a[i+1]) >>) >>
    [] kd = 7 -> << ShapeEl(d, "ellipse", P4(a, i) \o << U*Max2(a[i+2], a[i+3]), U*Min2(a[i+2], a[i+3]), 15000*a[i+4] >>) >>
    [] kd = 8 -> PolyEls(d, im, TRUE, Pairs(a, i+1, a[i]))
    [] OTHER -> PolyEls(d, im, FALSE, Pairs(a, i+1, a[i]))
\* index texts of containers
IdxEls(d, kd, a, i, k) ==
  IF ~d.idx THEN <<>>
  ELSE CASE kd = 1 -> << TextEl(d, P4(a, i), Digs(k)) >>
         [] kd = 3 -> << TextEl(d, << (U*(a[i] + a[i+2])) \div 2, (U*(a[i+1] + a[i+3])) \div 2 >>, Digs(k)) >>
         [] OTHER -> <<>>

(*------------------------- reading the document back ----------------------*)
R(k, n) == << [ k |-> k, n |-> n, cl |-> FALSE, sw |-> FALSE ] >>
ImpEl(e) ==
  CASE e.k = "line" -> LET s == SortPair(SubSeq(e.n, 1, 2), SubSeq(e.n, 3, 4)) IN << [ k |-> "Segment", n |-> s[1] \o s[2], cl |-> e.cl, sw |-> e.sw ] >>
    [] e.k = "circle" -> R("Circle", e.n)
    [] e.k = "rect" -> R("FRect", << e.n[1], e.n[2], e.n[1] + e.n[3], e.n[2] + e.n[4] >>)
    [] e.k = "ellipse" -> R("Ellipse", << e.n[1], e.n[2], Max2(e.n[3], e.n[4]), Min2(e.n[3], e.n[4]), e.n[5] + (IF e.n[3] < e.n[4] THEN 90000 ELSE 0) >>)
    [] e.k = "polygon" -> R("CPolyline", IF e.x = <<1>> THEN SubSeq(e.n, 1, Len(e.n) - 2) ELSE e.n)
    [] e.k = "polyline" -> R("OPolyline", e.n)
    [] e.k = "path" -> IF e.n = <<>> THEN <<>> ELSE R(IF e.x = <<2>> THEN "OPolyline" ELSE "CPolyline", e.n)
    [] OTHER -> <<>>
Imp(els) == FlattenSeq([ i \in 1..Len(els) |-> ImpEl(els[i]) ])
\* drawing an imported primitive
PtsOf(n) == [ j \in 1..(Len(n) \div 2) |-> << n[2*j-1] \div U, n[2*j] \div U >> ]
RedEls(d, im, r) ==
  CASE r.k = "Segment" -> IF (r.cl \/ r.sw) /\ d.pts THEN Lost ELSE LET s == SegEls(d, im, SubSeq(r.n,1,2), SubSeq(r.n,3,4)) IN [ i \in 1..Len(s) |-> [ s[i] EXCEPT !.cl = r.cl, !.sw = (i = 1 /\ r.sw) ] ]
    [] r.k = "Circle" -> << ShapeEl(d, "circle", r.n) >>
    [] r.k = "FRect" -> << ShapeEl(d, "rect", << r.n[1], r.n[2], r.n[3] - r.n[1], r.n[4] - r.n[2] >>) >>
    [] r.k = "Ellipse" -> << ShapeEl(d, "ellipse", r.n) >>
    [] OTHER -> PolyEls(d, im, r.k = "CPolyline", PtsOf(r.n))
\* foreign elements put in a document
J(k, n, x) == << El(k, n, FALSE, <<>>, 0, 0, 0, x, NoG) >>
Junk(j) ==
  CASE j = 3 -> J("circle", <<10000, 20000, 5000>>, <<>>)
    [] j = 5 -> J("path", <<>>, <<>>)
    [] j = 6 -> J("path", <<10000,10000, 20000,10000, 20000,30000>>, <<>>)
    [] j = 7 -> J("text", <<1000,2000>>, <<97,98,99>>)
    [] j = 9 -> J("polygon", <<10000,10000, 20000,10000, 20000,30000, 10000,10000>>, <<1>>)
    [] j = 10 -> J("ellipse", <<50000,40000,10000,20000,0>>, <<>>)
    [] j = 11 -> J("line", <<1000,2000,3000,4000>>, <<>>) \o J("rect", <<5000,6000,7000,8000>>, <<>>)
    [] j = 12 -> J("path", <<10000,10000, 20000,10000, 20000,30000>>, <<2>>)
    [] j = 13 -> J("polyline", <<40000,10000, 20000,10000, 20000,30000>>, <<>>)
    [] OTHER -> <<>>

(*------------------------------ transitions -------------------------------*)
Setters == {"col","thk","sty","siz","spt","six","san","fnt","att","sel"}
Refused(e) == (e.op = "siz" /\ e.a[2] % 2 = 0) \/ (e.op = "sty" /\ e.a[2] > 5)
Set(d, e) ==
  LET v == e.a[2] IN
  CASE e.op = "col" -> [ d EXCEPT !.col = SubSeq(e.a, 3, 5) ]
    [] e.op = "thk" -> [ d EXCEPT !.th = v ]
    [] e.op = "sty" -> [ d EXCEPT !.st = v ]
    [] e.op = "siz" -> [ d EXCEPT !.ps = v, !.dl = v ]
    [] e.op = "spt" -> [ d EXCEPT !.pts = (v = 1) ]
    [] e.op = "six" -> [ d EXCEPT !.idx = (v = 1) ]
    [] e.op = "san" -> [ d EXCEPT !.ang = (v = 1) ]
    [] e.op = "fnt" -> [ d EXCEPT !.fs = v ]
    [] e.op = "att" -> [ d EXCEPT !.at = v ]
    [] OTHER -> [ d EXCEPT !.sel = TRUE ]
Dp(st, m) == IF m = 0 THEN st.def ELSE st.dp[m]
Tail2(im, els) == IF \E i \in 1..Len(els) : els[i].k = "lost" THEN [ im EXCEPT !.ok = FALSE ] ELSE [ im EXCEPT !.els = @ \o els ]
New(st, e) ==       \* the elements appended
  LET a == e.a  im == st.im[a[1]] IN
  CASE e.op = "dr" -> ObjEls(Dp(st, a[3]), im, a[4], a, 5, st.f)
    [] e.op = "drc" -> LET w == Width(a, 6, a[4])
                           d(k) == IF a[3] = 9 THEN st.dp[1 + (k % 3)] ELSE Dp(st, a[3])
                       IN FlattenSeq([ k \in 1..a[5] |-> ObjEls(d(k-1), im, a[4], a, 6 + w*(k-1), st.f) \o IdxEls(d(k-1), a[4], a, 6 + w*(k-1), k-1) ])
    [] e.op = "drp" -> ObjEls(Dp(st, a[3]), im, a[4], a, 6, st.f) \o ObjEls(Dp(st, a[3]), im, a[5], a, 6 + Width(a, 6, a[4]), st.f)
    [] e.op = "txt" -> << TextEl(Dp(st, a[3]), P4(a, 4), SubSeq(a, 6, Len(a))) >>
    [] e.op = "raw" -> Junk(a[2])
    [] OTHER -> <<>>
Draws == {"dr","drc","drp","txt","raw"}
Writers == Setters \cup Draws \cup {"dpn","dpc","def","rst","new","ssz","clr","red"}

(*------------------------------ observations ------------------------------*)
NearN(z, y, t) == Len(z) = Len(y) /\ \A i \in 1..Len(z) : Near(z[i], y[i], t)
AngN(a, b) == LET d == Abs(a - b) % 180000 IN d <= 150 \/ d >= 179850
TolOf(k, cl, f) == IF cl /\ f THEN 150 ELSE IF k = "ellipse" \/ k = "Ellipse" THEN 4 ELSE 2
EllN(n, m, f) == f \/ (Len(m) >= 5 /\ NearN(SubSeq(n, 1, 4), SubSeq(m, 1, 4), 4) /\ (n[3] = n[4] \/ AngN(n[5], m[5])))
Match(s, o, f) ==
  /\ s.k = o.k /\ s.c = o.c /\ s.w = o.w /\ s.f = o.f /\ s.a = o.a
  /\ CASE s.k = "ellipse" -> EllN(s.n, o.n, f) /\ (f \/ Len(o.n) = 5 \/ NearN(SubSeq(o.n, 6, 7), SubSeq(o.n, 1, 2), 3))
       [] s.k = "line" -> NearN(s.n, o.n, TolOf(s.k, s.cl, f)) \/ (~s.o /\ NearN(s.n, SubSeq(o.n, 3, 4) \o SubSeq(o.n, 1, 2), TolOf(s.k, s.cl, f)))
       [] s.k = "path" -> TRUE
       [] s.k = "text" -> NearN(s.n, o.n, 2) /\ (IF s.g = NoG THEN s.x = o.x ELSE s.g = AnyG \/ Near(s.g, o.g, 2) \/ (Abs(s.g) = 18000 /\ Near(18000, Abs(o.g), 2)))
       [] OTHER -> NearN(s.n, o.n, TolOf(s.k, s.cl, f))
\* the two arrow lines of an oriented segment may come in either order
MatchSw(els, doc, f, Mt(_,_,_)) ==
  /\ Len(els) = Len(doc)
  /\ \A i \in 1..Len(els) :
       IF ~els[i].sw THEN Mt(els[i], doc[i], f)
       ELSE IF i > 1 /\ els[i-1].sw /\ Cardinality({ j \in 1..(i-1) : els[j].sw }) % 2 = 1 THEN TRUE
       ELSE IF i = Len(els) \/ ~els[i+1].sw THEN Mt(els[i], doc[i], f)
       ELSE (Mt(els[i], doc[i], f) /\ Mt(els[i+1], doc[i+1], f)) \/ (Mt(els[i], doc[i+1], f) /\ Mt(els[i+1], doc[i], f))
MatchAll(els, doc, f) == MatchSw(els, doc, f, Match)
RMatch(s, o, f) == s.k = o.k /\ (IF s.k = "Ellipse" THEN EllN(s.n, o.n, f)
                                 ELSE NearN(s.n, o.n, TolOf(s.k, s.cl, f)) \/ (s.k = "Segment" /\ s.cl /\ NearN(s.n, SubSeq(o.n,3,4) \o SubSeq(o.n,1,2), TolOf(s.k, s.cl, f))))
B(b) == IF b THEN 1 ELSE 0
Vals(d) == d.col \o << d.th, d.ps, d.dl, d.st, B(d.sel), B(d.pts), B(d.idx), B(d.ang), d.fs >>
Obs(st, e) ==
  LET a == e.a IN
  CASE e.op = "dpo" -> e.d = Vals(st.dp[a[1]]) /\ e.at = st.dp[a[1]].at /\ e.cc = st.dp[a[1]].col
    [] e.op = "isz" -> LET im == st.im[a[1]] IN e.sz = << im.w, im.h, im.w, im.h >>
    [] e.op = "doc" -> LET im == st.im[a[1]] IN
         /\ e.ok /\ e.wf /\ e.root = "svg" /\ e.sz = << im.w, im.h >>
         /\ im.ok => MatchAll(im.els, e.doc, st.f)
    [] e.op = "imp" -> LET im == st.im[a[1]] IN
         im.ok => MatchSw(Imp(im.els), e.v, st.f, RMatch)
    [] OTHER -> FALSE
Accepts(st, e) ==
  IF e.op = "begin" THEN TRUE
  ELSE IF e.op \in Setters /\ Refused(e) THEN e.r = "throw"
  ELSE IF e.op \in Writers THEN e.r = "ok" /\ (e.op \in Setters => e.ref) /\ (e.op \in {"dr","drc","drp"} => e.same)
  ELSE e.r = "ok" /\ Obs(st, e)
Apply(st, e) ==
  LET a == e.a IN
  CASE e.op = "begin" -> [ InitSt EXCEPT !.f = e.f ]
    [] e.op \notin Writers \/ (e.op \in Setters /\ Refused(e)) -> st
    [] e.op \in Setters -> [ st EXCEPT !.dp[a[1]] = Set(@, e) ]
    [] e.op \in Draws -> [ st EXCEPT !.im[a[1]] = Tail2(@, New(st, e)) ]
    [] e.op = "dpn" -> [ st EXCEPT !.dp[a[1]] = st.def ]
    [] e.op = "dpc" -> [ st EXCEPT !.dp[a[1]] = st.dp[a[2]] ]
    [] e.op = "def" -> [ st EXCEPT !.def = st.dp[a[1]] ]
    [] e.op = "rst" -> [ st EXCEPT !.def = D0 ]
    [] e.op = "new" -> [ st EXCEPT !.im[a[1]] = [ w |-> a[2], h |-> a[3], els |-> <<>>, ok |-> TRUE ] ]
    [] e.op = "ssz" -> [ st EXCEPT !.im[a[1]].w = a[3], !.im[a[1]].h = a[4] ]
    [] e.op = "clr" -> [ st EXCEPT !.im[a[1]].els = <<>>, !.im[a[1]].ok = TRUE ]
    [] e.op = "red" -> LET x == Imp(st.im[a[1]].els)  im == st.im[a[2]]  d == Dp(st, a[3]) IN
                       [ st EXCEPT !.im[a[2]] = IF ~st.im[a[1]].ok THEN [ im EXCEPT !.ok = FALSE ]
                                                ELSE Tail2(im, FlattenSeq([ i \in 1..Len(x) |-> RedEls(d, im, x[i]) ])) ]
    [] OTHER -> st
=============================================================================
