------------------------------- MODULE SvgDoc -------------------------------
(***************************************************************************)
(* What the import of an SVG document delivers.  A document is a sequence of  *)
(* elements, possibly inside groups; every attribute is spelled in a way of    *)
(* its own, absent, or unreadable.  The meaning of an element: the sequences of *)
(* shapes it may deliver, and whether the whole import may be refused because   *)
(* of it.  Coordinates of the document are in quarters.                          *)
(***************************************************************************)
EXTENDS Geom
InitSt == [ els |-> <<>>, dep |-> 0, root |-> << 0, 12, 0, 12, 0 >>, acc |-> <<>>, lost |-> FALSE ]
Q(v) == v * (S \div 4)
Pt(x, y) == << Q(x), Q(y) >>
Plain == {0, 1, 2, 3, 5, 6}              \* spellings every reader has to understand
Only(s)   == [ alts |-> { <<s>> }, thr |-> FALSE ]
OneOf(ss) == [ alts |-> { <<s>> : s \in ss }, thr |-> FALSE ]
Maybe(ss) == [ alts |-> { <<s>> : s \in ss } \cup { <<>> }, thr |-> TRUE ]
Ignored(ss) == [ alts |-> { <<s>> : s \in ss } \cup { <<>> }, thr |-> FALSE ]
Sh(k, n) == [ k |-> k, n |-> n ]
Ok(a, at, n)  == \A j \in 0..n-1 : a[at + 2*j] \in Plain
\* readable, although not by every reader: unit "px", or an attribute with a default value of 0
Odd4(a, at, n) == \A j \in 0..n-1 : a[at + 2*j] \in Plain \cup {4, 12}
V(a, at, j) == IF a[at + 2*j] = 12 THEN 0 ELSE a[at + 2*j + 1]
Figure(a, at, n, s, sound) == IF Ok(a, at, n) /\ sound THEN Only(s) ELSE IF Odd4(a, at, n) /\ sound THEN Maybe({s}) ELSE Maybe({})

Circ(a) == LET v(j) == V(a, 3, j) IN Figure(a, 3, 3, Sh("Circle", << Pt(v(0), v(1)), << Q(v(2)), 0 >> >>), v(2) > 0)
RectOf(x, y, w, h) == Sh("FRect", << Pt(Min2(x, x+w), Min2(y, y+h)), Pt(Max2(x, x+w), Max2(y, y+h)) >>)
Rect(a) == LET v(j) == V(a, 3, j)  s == RectOf(v(0), v(1), v(2), v(3)) IN
           IF v(2) < 0 \/ v(3) < 0 THEN (IF Odd4(a, 3, 4) /\ v(2) # 0 /\ v(3) # 0 THEN Maybe({s}) ELSE Maybe({}))
           ELSE Figure(a, 3, 4, s, v(2) > 0 /\ v(3) > 0)
Seg(a) == LET v(j) == V(a, 3, j)  p == Pt(v(0), v(1))  q == Pt(v(2), v(3)) IN Figure(a, 3, 4, Sh("Segment", << p, q >>), p # q)

\* quarter turns of (x,y) around (cx,cy)
QTurn(n, x, y, cx, cy) == LET k == n % 4 IN
   CASE k = 0 -> << x, y >> [] k = 1 -> << cx - (y - cy), cy + (x - cx) >> [] k = 2 -> << 2*cx - x, 2*cy - y >> [] OTHER -> << cx + (y - cy), cy - (x - cx) >>
Ell(a) ==
  LET v(j) == V(a, 3, j)
      t == a[11]  deg == a[12]  tx == a[13]  ty == a[14]
      made(c, n) == LET tall == v(2) < v(3)  ang == (IF tall THEN 1 ELSE 0) + n IN
                    Sh("Ellipse", << Pt(c[1], c[2]), << Q(Max2(v(2), v(3))), Q(Min2(v(2), v(3))) >>, << IF v(2) = v(3) THEN -1 ELSE (ang % 2) * 90 * S, 0 >> >>)
      c0 == << v(0), v(1) >>
      rd == Ok(a, 3, 4) /\ v(2) > 0 /\ v(3) > 0
      odd == Odd4(a, 3, 4)
      any == Sh("Any", <<>>)
  IN CASE ~odd -> Maybe({})
       [] v(2) <= 0 \/ v(3) <= 0 -> Maybe({any})                 \* a flat ellipse: left open
       [] t = 0 -> IF rd THEN Only(made(c0, 0)) ELSE Maybe({ made(c0, 0) })
       [] t = 1 -> LET s == made(QTurn(deg \div 90, v(0), v(1), tx, ty), deg \div 90) IN IF rd THEN Only(s) ELSE Maybe({s})
       [] t \in {3, 8} -> Maybe({ made(QTurn(deg \div 90, v(0), v(1), tx, ty), deg \div 90) })
       [] t = 2 -> Maybe({ made(QTurn(deg \div 90, v(0), v(1), 0, 0), deg \div 90) })
       [] t = 7 -> Maybe({ made(c0, 0) })
       [] t = 9 -> Maybe({ made(<< v(0) + tx, v(1) + ty >>, 0) })
       [] OTHER -> Maybe({})

\* lists of points.  at: index of the separator style; n values from at+2 on
Pts(a, at) == [ i \in 1..(a[at+1] \div 2) |-> Pt(a[at + 4*i - 1], a[at + 4*i + 1]) ]
Bad(a, at) == \E j \in 0..a[at+1]-1 : a[at + 2 + 2*j] \notin Plain
\* the last point is not given twice, a figure has two points, no point follows itself
Trim(p) == IF Len(p) > 0 /\ p[1] = p[Len(p)] THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Sound(p) == Len(p) >= 2 /\ p[1] # p[Len(p)] /\ \A i \in 1..Len(p)-1 : p[i] # p[i+1]
Dedup(p) == FoldLeft(LAMBDA o, x : IF Len(o) > 0 /\ o[Len(o)] = x THEN o ELSE Append(o, x), <<>>, p)
Shapes(p, closed) ==
  LET t == Trim(p) IN IF closed THEN { Sh("CPolyline", t) } ELSE IF t = p THEN { Sh("OPolyline", p) } ELSE { Sh("OPolyline", t), Sh("CPolyline", t) }
\* an unreadable list: nothing, or what comes before
Before(a, at) == LET b == { j \in 0..a[at+1]-1 : a[at + 2 + 2*j] \notin Plain }
                     n == IF b = {} THEN a[at+1] ELSE CHOOSE j \in b : \A k \in b : j <= k
                 IN SubSeq(Pts(a, at), 1, n \div 2)
Left(p, closed) == IF Len(p) = 1 THEN { Sh(IF closed THEN "CPolyline" ELSE "OPolyline", <<>>) }       \* an empty figure
                   ELSE IF Sound(Trim(p)) THEN Shapes(p, closed)
                   ELSE IF Sound(Trim(Dedup(p))) THEN Shapes(Dedup(p), closed) ELSE {}
Poly(a) ==
  LET p == Pts(a, 4)  closed == a[1] = 5 IN
  IF a[3] = 0 THEN Maybe({})
  ELSE IF Bad(a, 4) \/ a[5] % 2 = 1 THEN Maybe(Left(Before(a, 4), closed))
  ELSE IF ~Sound(Trim(p)) THEN Maybe(Left(p, closed))
  ELSE IF a[4] \in {0, 7} THEN OneOf(Shapes(p, closed)) ELSE Maybe(Shapes(p, closed))
Path(a) ==
  LET p == Pts(a, 5)  closed == a[4] = 1 IN
  IF a[3] = 0 THEN Maybe({})
  ELSE IF a[6] = 0 THEN Ignored({})
  ELSE IF Bad(a, 5) \/ a[6] % 2 = 1 THEN Ignored(Left(Before(a, 5), closed))
  ELSE IF ~Sound(Trim(p)) THEN Ignored(Left(p, closed))
  ELSE OneOf(Shapes(p, closed))

Meaning(a) == CASE a[1] = 1 -> Circ(a) [] a[1] = 2 -> Rect(a) [] a[1] = 3 -> Seg(a) [] a[1] = 4 -> Ell(a)
                [] a[1] \in {5, 6} -> Poly(a) [] a[1] = 7 -> Path(a) [] OTHER -> [ alts |-> { <<>> }, thr |-> FALSE ]

(*------------------------------ comparisons -------------------------------*)
NearP(p, q) == \A i \in 1..2 : Abs(p[i] - q[i]) <= 4
SameSh(m, s) ==
  \/ m.k = "Any" /\ s.k = "Ellipse"
  \/ /\ m.k = s.k
     /\ CASE m.k = "Segment" -> Len(s.n) = 2 /\ { m.n[1], m.n[2] } = { s.n[1], s.n[2] }
          [] m.k = "Ellipse" -> /\ NearP(m.n[1], s.n[1]) /\ NearP(m.n[2], s.n[2])
                                /\ m.n[3][1] # -1 => LET d == (s.n[3][1] - m.n[3][1]) % (180 * S) IN d <= 20 \/ d >= 180 * S - 20
          [] OTHER -> m.n = s.n
SameQ(mq, v, j) == j + Len(mq) <= Len(v) /\ \A i \in 1..Len(mq) : SameSh(mq[i], v[j + i])
\* where the reading of v can be after the first i elements, v starting after j0 shapes
Reach(els, v, j0) == FoldLeft(LAMBDA ps, e : Append(ps, UNION { { j + Len(m) : m \in { x \in Meaning(e).alts : SameQ(x, v, j) } } : j \in ps[Len(ps)] }), << {j0} >>, els)
Delivered(els, v, j0, ok) ==
  LET r == Reach(els, v, j0) IN
  IF ok THEN Len(v) \in r[Len(els) + 1]
  ELSE \E i \in 1..Len(els) : Meaning(els[i]).thr /\ Len(v) \in r[i]

(*-------------------------------- events ----------------------------------*)
Readable(f) == f \in Plain \cup {4}
Accepts(st, e) ==
  CASE e.op = "begin" -> TRUE
    [] e.op \in {"root", "opn", "el"} -> e.r = "ok"
    [] e.op = "cls" -> e.r = (IF st.dep = 0 THEN "skip" ELSE "ok")
    [] e.op = "imp" -> e.r = "ok" /\ Delivered(st.els, e.v, 0, e.s = "ok")
    [] e.op = "acc" -> /\ e.r = "ok"
                       /\ Len(e.v) >= Len(st.acc) /\ SubSeq(e.v, 1, Len(st.acc)) = st.acc
                       /\ Delivered(st.els, e.v, Len(st.acc), e.s = "ok")
    [] e.op = "size" -> LET r == st.root IN
                        IF Readable(r[2]) /\ Readable(r[4]) THEN e.r = "ok" /\ e.v = << Q(r[3]), Q(r[5]) >>
                        ELSE e.r = "throw"
    [] e.op = "prn" -> e.r = "ok" /\ e.all /\ e.nl = e.c
    [] e.op = "non" -> IF e.a[1] = 0 THEN e.r = "ok" /\ e.v = 0 ELSE IF e.a[1] = 1 THEN e.r = "throw" ELSE e.r \in {"ok", "throw"}
    [] OTHER -> FALSE
Apply(st, e) ==
  CASE e.op = "root" -> [ st EXCEPT !.root = e.a ]
    [] e.op = "opn" -> [ st EXCEPT !.dep = @ + 1 ]
    [] e.op = "cls" -> [ st EXCEPT !.dep = Max2(0, @ - 1) ]
    [] e.op = "el" -> [ st EXCEPT !.els = Append(@, e.a) ]
    [] e.op = "acc" -> [ st EXCEPT !.els = <<>>, !.dep = 0, !.acc = e.v ]
    [] OTHER -> st
=============================================================================
