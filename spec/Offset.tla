-------------------------------- MODULE Offset ------------------------------
(***************************************************************************)
(* Polygons derived from another one or from a few numbers: offset polygons *)
(* (parallel curves) and regular polygons.  The state is one polyline; the   *)
(* offset one is exact for polygons whose edges have integer lengths.        *)
(***************************************************************************)
EXTENDS Geom
InitSt == [ c |-> TRUE, p |-> <<>> ]
DecPts(a, from, n) == [ i \in 1..n |-> << a[from + 2*i - 2], a[from + 2*i - 1] >> ]
ValidPts(q) == Len(q) >= 2 /\ \A i \in 1..Len(q) : q[i] # q[Nxt(i,Len(q))]
Modifiers == {"set","tr","rot"}
Effect(st, o, a) ==
  CASE o = "set" -> LET q == DecPts(a, 3, a[2]) IN IF ValidPts(q) THEN [ k |-> "ok", s |-> [ c |-> a[1] = 1, p |-> q ] ] ELSE [ k |-> "throw", s |-> st ]
    [] o = "tr" -> [ k |-> "ok", s |-> [ st EXCEPT !.p = [ i \in 1..Len(st.p) |-> Add(st.p[i], <<a[1],a[2]>>) ] ] ]
    [] o = "rot" -> [ k |-> "ok", s |-> [ st EXCEPT !.p = [ i \in 1..Len(st.p) |-> Turn(a[1], st.p[i]) ] ] ]
Step(st, o) == IF o[1] \in Modifiers THEN Effect(st, o[1], Tail(o)).s ELSE st

(*------------------------- the corners that count ------------------------*)
Lg(p, i) == ISqrt(D2(p[i], p[Nxt(i, Len(p))]))          \* length of edge i -> i+1
IntLen(p) == \A i \in 1..Len(p) : Lg(p, i) * Lg(p, i) = D2(p[i], p[Nxt(i, Len(p))])
\* corner at vertex i: b; the two directions and lengths; tn/td = tangent of half of the turn, positive when convex
Corner(p, i) ==
  LET n == Len(p)  a == p[Prv(i,n)]  b == p[i]  c == p[Nxt(i,n)]
      u == Sub(b,a)  v == Sub(c,b)  L1 == Lg(p, Prv(i,n))  L2 == Lg(p, i)
      sg == Sgn(Area2(p))  C == CrossV(u,v)  N == (L1*L2) - DotV(u,v)
      g == Gcd(Abs(C), Abs(N))
  IN [ i |-> i, b |-> b, u |-> u, v |-> v, l1 |-> L1, l2 |-> L2, c |-> C, s |-> sg,
       tn |-> IF C = 0 THEN 0 ELSE sg * Sgn(C) * (N \div g), td |-> IF C = 0 THEN 1 ELSE Abs(C) \div g ]
Corners(p) == LET all == [ i \in 1..Len(p) |-> Corner(p, i) ] IN SelectSeq(all, LAMBDA k : k.c # 0)
\* length of the straight run from corner k to corner m
RECURSIVE Run(_,_,_)
Run(p, i, j) == Lg(p, i) + (IF Nxt(i, Len(p)) = j THEN 0 ELSE Run(p, Nxt(i, Len(p)), j))

(*------------------------------ offset polygon ---------------------------*)
K(m) == IF m <= 2000 THEN 1000 ELSE IF m <= 200000 THEN 100 ELSE 10
\* thousandths: tangent of a quarter of the turn, for a convex corner
Tan4(k) == LET m == (k.tn*k.tn) + (k.td*k.td) IN (k.tn * 1000 * K(m)) \div (ISqrt(m * (K(m) * K(m))) + (k.td * K(m)))
Cut(k, num, split) == split /\ num > 0 /\ k.tn > 0
\* by how much (thousandths) both edges get longer at a corner, per unit of distance
Grow(k, num, split) == IF Cut(k, num, split) THEN Tan4(k) ELSE (k.tn * 1000) \div k.td
\* sign of the length of the run between two corners: -1, 0, 1, or 2: too close to zero
RunSign(p, k, m, num, den, split) ==
  LET L == Run(p, k.i, m.i)
  IN IF Cut(k, num, split) \/ Cut(m, num, split)
     THEN LET z == (L * 1000 * den) + (num * (Grow(k, num, split) + Grow(m, num, split)))
          IN IF Abs(z) <= 8 * Abs(num) THEN 2 ELSE Sgn(z)
     ELSE Sgn((L * den * k.td * m.td) + (num * ((k.tn * m.td) + (m.tn * k.td))))
FailSet(p, num, den, split) ==
  LET q == Corners(p)  n == Len(q) IN { RunSign(p, q[i], q[Nxt(i,n)], num, den, split) : i \in 1..n }
\* expected points of a corner, scale S
CornerPts(k, num, den, split) ==
  IF ~Cut(k, num, split)
  THEN << << (k.b[1] * S) + Fx(num * k.s * ((k.l2 * k.u[1]) - (k.l1 * k.v[1])), den * k.c),
             (k.b[2] * S) + Fx(num * k.s * ((k.l2 * k.u[2]) - (k.l1 * k.v[2])), den * k.c) >> >>
  ELSE LET x == Tan4(k)
           f(n) == n * 10 IN
       << << (k.b[1] * S) + (10 * num * ((k.s * k.u[2] * 1000) + (x * k.u[1]))) \div (den * k.l1),
             (k.b[2] * S) + (10 * num * ((-k.s * k.u[1] * 1000) + (x * k.u[2]))) \div (den * k.l1) >>,
          << (k.b[1] * S) + (10 * num * ((k.s * k.v[2] * 1000) - (x * k.v[1]))) \div (den * k.l2),
             (k.b[2] * S) + (10 * num * ((-k.s * k.v[1] * 1000) - (x * k.v[2]))) \div (den * k.l2) >> >>
Expected(p, num, den, split) == LET q == Corners(p) IN FlattenSeq([ i \in 1..Len(q) |-> CornerPts(q[i], num, den, split) ])
Tol(num, den, split) == IF split THEN 8 + ((30 * Abs(num)) \div den) ELSE 4
SamePts(v, w, tol) ==        \* same closed figure
  /\ Len(v) = Len(w)
  /\ LET n == Len(v)
     IN \E j \in 0..(n-1) : \/ \A i \in 1..n : Near(v[i][1], w[((i-1+j) % n)+1][1], tol) /\ Near(v[i][2], w[((i-1+j) % n)+1][2], tol)
                            \/ \A i \in 1..n : Near(v[i][1], w[((n-i+j) % n)+1][1], tol) /\ Near(v[i][2], w[((n-i+j) % n)+1][2], tol)
HasOffset(st, num) == st.c /\ Len(st.p) >= 3 /\ num # 0 /\ SimplePoly(st.p)
OffOk(st, e) ==
  LET num == e.a[1]  den == e.a[2]  split == e.a[3] # 0
  IN IF ~HasOffset(st, num) THEN e.v = <<>>                    \* documented: an empty polyline
     ELSE IF ~IntLen(st.p) THEN TRUE
     ELSE LET f == FailSet(st.p, num, den, split)
          IN IF -1 \in f THEN e.v = <<>>                                     \* an edge is lost: failure, thus an empty polyline
             ELSE IF f \cap {0, 2} # {} THEN e.v = <<>> \/ e.fl \/ 2 \in f
             ELSE SamePts(e.v, Expected(st.p, num, den, split), Tol(num, den, split))

(*------------------------------ regular polygon --------------------------*)
\* points recorded with three decimals
M3 == 1000
Mul(a, b) == << (a[1]*b[1]) - (a[2]*b[2]), (a[1]*b[2]) + (a[2]*b[1]) >>
RcpOk(e) ==
  LET r == e.a[1]  n == e.a[2]
  IN IF n < 3 \/ r <= 0 THEN e.r = "throw"
     ELSE /\ e.r = "ok" /\ Len(e.v) = n
          /\ Near(e.v[1][1], r * M3, 1) /\ Near(e.v[1][2], 0, 1)
          /\ \A i \in 1..n :
               /\ Abs((e.v[i][1]*e.v[i][1]) + (e.v[i][2]*e.v[i][2]) - (r*M3*r*M3)) <= 4 * r * M3
               \* each point is the previous one turned by a constant angle, the last one included
               /\ LET w == Mul(e.v[i], e.v[2])  z == e.v[Nxt(i,n)]
                  IN Abs(w[1] - (z[1] * r * M3)) <= 5 * r * M3 /\ Abs(w[2] - (z[2] * r * M3)) <= 5 * r * M3
               /\ CrossV(e.v[i], e.v[Nxt(i,n)]) > 0
          \* once around
          /\ Cardinality({ i \in 1..n : e.v[i][2] < -1 /\ e.v[Nxt(i,n)][2] >= -1 }) = 1
          \* the two values that are returned: distance between two points, radius of the inscribed circle
          /\ Abs((e.d1*e.d1) - D2(e.v[1], e.v[2])) <= 4 * (e.d1 + r) + 8
          /\ Abs((4*e.d2*e.d2) + (e.d1*e.d1) - (4*r*r*M3*M3)) <= 16 * (r * M3) + 16

Accepts(st, e) ==
  CASE e.op = "begin" -> TRUE
    [] "r" \in DOMAIN e /\ e.r = "crash" -> FALSE
    [] e.op \in Modifiers -> e.r = Effect(st, e.op, e.a).k
    [] e.op = "off" -> e.r = "ok" /\ OffOk(st, e) /\ SameFig(e.w, [ i \in 1..Len(st.p) |-> << st.p[i][1]*S, st.p[i][2]*S >> ], st.c)
    [] e.op = "rcp" -> RcpOk(e)
    [] OTHER -> FALSE
Apply(st, e) == IF e.op = "begin" THEN InitSt ELSE IF e.op \in Modifiers THEN Effect(st, e.op, e.a).s ELSE st
=============================================================================
