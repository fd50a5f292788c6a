--------------------------------- MODULE Bind --------------------------------
(***************************************************************************)
(* Points, lines and polylines exchanged with other libraries (OpenCv, Boost *)
(* Geometry) or with arrays and vectors.  Coordinates are halves, so that a  *)
(* value lost in a conversion to another type shows.                         *)
(***************************************************************************)
EXTENDS Geom
InitSt == [ p |-> [ i \in 1..3 |-> <<0,0>> ], c |-> <<>>, o |-> <<>> ]
Hx(h) == h * (S \div 2)                     \* fixed point image of a half
PNear(o, p, t) == Near(o[1], Hx(p[1]), t) /\ Near(o[2], Hx(p[2]), t)
Even(p) == p[1] % 2 = 0 /\ p[2] % 2 = 0
Ints(v) == v = 2 \/ v >= 15
PtsOf(a, i) == [ k \in 1..a[i] |-> << a[i + 2*k - 1], a[i + 2*k] >> ]
\* the envelope of an imported polygon: a repeated last point is not stored
Closes(w) == Len(w) > 0 /\ w[1] = w[Len(w)]
Stored(w) == IF Closes(w) THEN SubSeq(w, 1, Len(w)-1) ELSE w
Fine(w) == Len(w) = 0 \/ (Len(w) > 1 /\ \A i \in 1..Len(w) : w[i] # w[Nxt(i, Len(w))])
ImpThrows(s, w) == (s = 2 /\ Closes(w)) \/ ~Fine(Stored(w))
Poly(st, s) == IF s = 1 THEN st.c ELSE st.o
WithPoly(st, s, w) == IF s = 1 THEN [ st EXCEPT !.c = w ] ELSE [ st EXCEPT !.o = w ]
Mv(w, x, y) == [ i \in 1..Len(w) |-> << w[i][1] + x, w[i][2] + y >> ]
\* o lists w, up to what comparing polylines is free to do: another start, another direction
SameList(o, w) == Len(o) = Len(w) /\ \A i \in 1..Len(w) : PNear(o[i], w[i], 2)
Rev(w) == [ i \in 1..Len(w) |-> w[Len(w)+1-i] ]
Rot(w, k) == [ i \in 1..Len(w) |-> w[((i+k-1) % Len(w)) + 1] ]
SamePoly(o, w, closed) ==
  IF closed THEN (Len(w) = 0 /\ Len(o) = 0) \/ \E k \in 0..(Len(w)-1) : SameList(o, Rot(w, k)) \/ SameList(o, Rot(Rev(w), k))
  ELSE SameList(o, w) \/ SameList(o, Rev(w))
\* l: three coefficients in thousandths, the line through p and q (halves)
LineThrough(l, p, q) ==
  /\ l[1]*l[1] + l[2]*l[2] > 990000 /\ l[1]*l[1] + l[2]*l[2] < 1010000
  /\ \A x \in {p, q} : Abs(l[1]*x[1] + l[2]*x[2] + 2*l[3]) <= 3 + Abs(x[1]) + Abs(x[2])
\* ... the line of given coefficients
LineOf(l, a, b, c) ==
  LET n2 == a*a + b*b IN
  /\ l[1]*l[1] + l[2]*l[2] > 990000 /\ l[1]*l[1] + l[2]*l[2] < 1010000
  /\ Abs(l[1]*b - l[2]*a) <= Abs(a) + Abs(b)
  /\ Abs(l[1]*c - l[3]*a) <= 2*(Abs(a) + Abs(c)) /\ Abs(l[2]*c - l[3]*b) <= 2*(Abs(b) + Abs(c))

Accepts(st, e) ==
  LET a == e.a IN
  CASE "r" \in DOMAIN e /\ e.r = "crash" -> FALSE
    [] e.op = "begin" -> TRUE
    [] e.op = "pin" -> IF Ints(a[2]) /\ ~Even(<<a[3],a[4]>>) THEN e.r \in {"skip","ok"} ELSE e.r = "ok"
    [] e.op \in {"pmv","plm","plr"} -> e.r = "ok" 
    [] e.op = "pout" -> e.r = "ok" /\ PNear(e.o, st.p[a[1]], IF a[2] \in {4,5} THEN S - 1 ELSE 2)
    [] e.op = "pts" -> e.r = "ok" /\ Len(e.o) = Len(a) - 1 /\ \A i \in 1..Len(e.o) : PNear(e.o[i], st.p[a[i+1]], 2)
    [] e.op = "peq" -> e.r = "ok" /\ e.q = (st.p[a[1]] = st.p[a[2]])
                       /\ LenOk(2*e.d, D2(st.p[a[1]], st.p[a[2]]))
    [] e.op = "lin" -> LET p == <<a[2],a[3]>>
                           q == IF a[1] \in {0,1,2,5} THEN <<0,0>> ELSE <<a[4],a[5]>>
                       IN IF a[1] = 2 /\ ~Even(p) THEN e.r \in {"skip","ok"}
                          ELSE IF p = q THEN e.r = "throw" ELSE e.r = "ok" /\ LineThrough(e.l, p, q)
    [] e.op = "lar" -> IF a[2] = 0 /\ a[3] = 0 THEN TRUE
                       ELSE e.r = "ok" /\ LineOf(e.l, a[2], a[3], a[4])
    [] e.op = "ply" -> (e.r = "throw") = ImpThrows(a[1], PtsOf(a, 3))
    [] e.op = "plo" -> LET w == Poly(st, a[1]) IN
         /\ e.r = "ok" /\ e.cl = (a[1] = 1) /\ Len(e.p) = Len(w)
         /\ SamePoly(e.p, w, a[1] = 1)
         /\ e.eq /\ e.v = e.n /\ e.v2 = e.v
         /\ e.v[3] = Len(w)
    [] e.op = "frm" -> IF a[1] = 0 \/ a[2] = 0 THEN e.r = "throw"
                       ELSE e.r = "ok" /\ e.b = <<0, 0, a[2]*S, a[1]*S>>
    [] OTHER -> FALSE
Apply(st, e) ==
  LET a == e.a IN
  CASE e.op = "begin" -> InitSt
    [] e.op = "pin" -> IF e.r = "ok" THEN [ st EXCEPT !.p[a[1]] = <<a[3],a[4]>> ] ELSE st
    [] e.op = "pmv" -> [ st EXCEPT !.p[a[1]] = << @[1] + a[2], @[2] + a[3] >> ]
    [] e.op = "ply" -> IF ImpThrows(a[1], PtsOf(a, 3)) THEN st ELSE WithPoly(st, a[1], Stored(PtsOf(a, 3)))
    [] e.op = "plm" -> WithPoly(st, a[1], Mv(Poly(st, a[1]), a[2], a[3]))
    [] e.op = "plr" -> WithPoly(st, a[1], [ i \in 1..Len(Poly(st, a[1])) |-> << -Poly(st, a[1])[i][2], Poly(st, a[1])[i][1] >> ])
    [] OTHER -> st
=============================================================================
