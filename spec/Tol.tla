---------------------------------- MODULE Tol ---------------------------------
(***************************************************************************)
(* The tolerances (namespace thr), as state that a program may read, set,    *)
(* save and restore at any time, and the decisions that depend on them.       *)
(* A tolerance is a number of sixteenths; 0 stands for the tiny default value *)
(* (the angle: tan of it in sixteenths, and 0 for a thousandth of a radian).   *)
(* Coordinates are integers, the tolerance on denominators is less than 1.    *)
(*  A decision is taken with the tolerance that is   *)
(* current when it is asked for, never with the one that was current when the  *)
(* figures were built, and no other tolerance has a part in it.                 *)
(*   1 nullDistance  2 nullOrthogDistance  3 nullAngleValue  4 nullDenom        *)
(*   5 nullDeter                                                                 *)
(***************************************************************************)
EXTENDS Geom
InitSt == [ t |-> [i \in 1..5 |-> 0], s |-> [i \in 1..5 |-> 0], fl |-> FALSE ]
T(st, i) == st.t[i]
(*--- three-valued comparison of non-negative integers; a and b too close to   *)
(*    each other for rounded computations: either answer will do               *)
Lt3(a, b) == IF Abs(a - b) <= b \div 400 THEN "?" ELSE IF a < b THEN "y" ELSE "n"
OrD(a, b) == IF a = "y" \/ b = "y" THEN "y" ELSE IF a = "?" \/ b = "?" THEN "?" ELSE "n"
AndD(a, b) == IF a = "n" \/ b = "n" THEN "n" ELSE IF a = "?" \/ b = "?" THEN "?" ELSE "y"
NotD(a) == IF a = "y" THEN "n" ELSE IF a = "n" THEN "y" ELSE "?"
OrAll(s) == FoldLeft(LAMBDA h, x : OrD(h, x), "n", s)
Fits(d, b) == d = "?" \/ (d = "y") = b
\* is sqrt(n/d) less than tolerance t ?
Under(n, d, t) == IF t = 0 THEN (IF n = 0 THEN "y" ELSE "n") ELSE Lt3(n * 256, t * t * d)
Same(st, p, q) == Under(D2(p, q), 1, T(st,1))
SameCoord(st, p, q) == OrD(Under((p[1]-q[1])*(p[1]-q[1]), 1, T(st,2)), Under((p[2]-q[2])*(p[2]-q[2]), 1, T(st,2)))
\* point c near the line through a and b (a # b); the distance is computed from rounded coefficients
NearLine(st, a, b, c) == LET k == Cross(a, b, c) IN
   IF T(st,1) = 0 /\ k = 0 /\ st.fl THEN "?" ELSE Under(k * k, D2(a, b), T(st,1))
\* lines of directions u and v (angle in 0..pi/2)
DirPar(st, u, v) == LET c == Abs(u[1]*v[2] - u[2]*v[1])  d == Abs(u[1]*v[1] + u[2]*v[2])
                    IN IF T(st,3) = 0 THEN Lt3(c * 1000, d) ELSE IF c = 0 THEN "y" ELSE IF d = 0 THEN "n" ELSE Lt3(c * 16, T(st,3) * d)
\* vectors of directions u and v, reversed ones being far apart
VecPar(st, u, v) == IF u[1]*v[1] + u[2]*v[2] <= 0 THEN "n" ELSE DirPar(st, u, v)
Dir(p, q) == << q[1]-p[1], q[2]-p[2] >>
LineDirPar(st, a, b, c, d) == DirPar(st, Dir(a,b), Dir(c,d))
\* a normalized component: |k| / len against the tolerance on denominators
SmallComp(st, k, l2) == Under(k * k, l2, T(st,4))
Col(st, a, b, c) ==
  LET ab == D2(a,b)  bc == D2(b,c)  ca == D2(c,a)
      far == IF ab >= bc /\ ab >= ca THEN << a, b, c >> ELSE IF bc >= ca THEN << b, c, a >> ELSE << c, a, b >>
      same == OrAll(<< Same(st,a,b), Same(st,b,c), Same(st,c,a) >>)
  IN IF same = "y" \/ a = b \/ b = c \/ a = c THEN same ELSE OrD(same, NearLine(st, far[1], far[2], far[3]))
P(a, i) == << a[i], a[i+1] >>
PolyBad(st, v) == OrAll([ i \in 1..Len(v) |-> IF Len(v) = 1 THEN "n" ELSE Same(st, v[i], v[Nxt(i, Len(v))]) ])
PtsAt(a, i, n) == [ k \in 1..n |-> P(a, i + 2*(k-1)) ]
Det3(m) == m[1]*(m[5]*m[9]-m[6]*m[8]) - m[2]*(m[4]*m[9]-m[6]*m[7]) + m[3]*(m[4]*m[8]-m[5]*m[7])
MinX(v) == FoldLeft(LAMBDA h, x : Min2(h, x[1]), v[1][1], v)
MinY(v) == FoldLeft(LAMBDA h, x : Min2(h, x[2]), v[1][2], v)
MaxX(v) == FoldLeft(LAMBDA h, x : Max2(h, x[1]), v[1][1], v)
MaxY(v) == FoldLeft(LAMBDA h, x : Max2(h, x[2]), v[1][2], v)
\* counting crossings of edges also rests on the angle between them, and on the bounding box
Plain(st) == T(st,2) = 0 /\ T(st,3) = 0
(*------------------------- what makes a request fail ----------------------*)
Throws(st, e) ==
  LET a == e.a IN
  CASE e.op \in {"ln","sg"} -> Same(st, P(a,2), P(a,4))
    [] e.op = "pl" -> PolyBad(st, PtsAt(a, 3, a[2]))
    [] e.op = "ci" -> IF a[1] = 4 THEN Same(st, P(a,2), <<a[2]+a[4], a[3]>>)
                      ELSE IF a[4] < 0 THEN "y" ELSE IF T(st,1) = 0 THEN (IF a[4] = 0 THEN "y" ELSE "n") ELSE IF a[4] = T(st,1) THEN "n" ELSE Lt3(a[4], T(st,1))
    [] e.op = "c3" -> LET c == Col(st, P(a,1), P(a,3), P(a,5)) IN IF c = "y" THEN "y" ELSE "?"
    [] e.op = "lab" -> Lt3(a[5] * 16, T(st,1))
    [] e.op \in {"side","gp","os","cd"} ->
         LET deg == Same(st, P(a,1), P(a,3)) IN
         IF deg = "y" THEN "y"
         ELSE IF e.op = "side" THEN deg
         ELSE IF e.op = "cd" THEN OrD(deg, SmallComp(st, IF a[5] = 0 THEN a[3]-a[1] ELSE a[4]-a[2], D2(P(a,1), P(a,3))))
         ELSE LET nl == NearLine(st, P(a,1), P(a,3), P(a,5)) IN OrD(deg, IF e.op = "gp" THEN NotD(nl) ELSE nl)
    [] e.op \in {"leq","par"} -> OrD(Same(st, P(a,2), P(a,4)), Same(st, P(a,6), P(a,8)))
    [] e.op = "it" -> LET deg == OrD(Same(st, P(a,2), P(a,4)), Same(st, P(a,6), P(a,8))) IN
                      IF deg = "y" THEN "y" ELSE IF a[1] = 3 THEN deg
                      ELSE LET u == Dir(P(a,2), P(a,4))  v == Dir(P(a,6), P(a,8))  k == u[1]*v[2] - u[2]*v[1]
                               par == OrD(deg, DirPar(st, u, v)) IN
                           \* a point built from two lines is normalized: the origin, with a small third value, is refused
                           IF a[1] = 1 /\ par = "n" /\ T(st,4) # 0 /\ Abs(k) * 16 <= T(st,4) * (Abs(u[1])+Abs(u[2])) * (Abs(v[1])+Abs(v[2])) THEN "?" ELSE par
    [] e.op = "hc" -> IF a[9] = 0 THEN "y" ELSE Lt3(Abs(a[9]), T(st,4))
    [] e.op = "inv" -> (LET d == Det3(a \o <<1>>)  w == a[1]*a[5] - a[2]*a[4] IN
                       OrD(Under(d*d, 1, T(st,5)), IF d = 0 THEN "y" ELSE Under(w*w, d*d, T(st,4))))
    [] e.op = "heq" -> "n"
    [] e.op = "inf" -> AndD(IF a[3] = 0 THEN "y" ELSE Lt3(Abs(a[3]), T(st,4)), AndD(Under(a[1]*a[1], 1, T(st,2)), Under(a[2]*a[2], 1, T(st,2))))
    [] e.op = "rc" -> SameCoord(st, P(a,2), P(a,4))
    [] e.op = "bb" -> LET v == PtsAt(a, 2, a[1]) IN
                      OrD(Under(D2(<<MinX(v),MinY(v)>>, <<MaxX(v),MaxY(v)>>), 1, T(st,1)), SameCoord(st, <<MinX(v),MinY(v)>>, <<MaxX(v),MaxY(v)>>))
    [] e.op = "min" -> PolyBad(st, PtsAt(a, 3, a[2]))
    [] e.op = "pip" -> LET b == PolyBad(st, PtsAt(a, 4, a[1])) IN IF b = "n" /\ Plain(st) THEN "n" ELSE "?"
    [] OTHER -> "n"
(*------------------------- what is answered when it does not ---------------*)
InterNum(a, b, c, d) == \* a + u k1/k
  LET u == Dir(a,b) v == Dir(c,d) k == u[1]*v[2]-u[2]*v[1]  k1 == (c[1]-a[1])*v[2] - (c[2]-a[2])*v[1]
  IN << a[1]*k + u[1]*k1, a[2]*k + u[2]*k1, k >>
MinKeep(st, v, cl) == [ i \in 1..Len(v) |->
   IF ~cl /\ (i = 1 \/ i = Len(v)) THEN "n" ELSE VecPar(st, Dir(v[Prv(i, Len(v))], v[i]), Dir(v[i], v[Nxt(i, Len(v))])) ]
Answer(st, e) ==
  LET a == e.a IN
  CASE e.op = "eq" -> LET d == Same(st, P(a,1), P(a,3)) IN Fits(d, e.b[1]) /\ Fits(d, e.b[2]) /\ e.b[3] = ~e.b[1]
    [] e.op = "ln" -> e.d[1] \in -20..20 /\ e.d[2] \in -20..20
    [] e.op = "sg" -> LenOk(e.d, D2(P(a,2), P(a,4)))
    [] e.op = "pl" -> e.d = a[2]
    [] e.op = "ci" -> e.d = (IF a[1] = 4 THEN Abs(a[4]) * 5000 ELSE a[4] * 625)
    [] e.op = "col" -> LET c == Col(st, P(a,1), P(a,3), P(a,5)) IN Fits(c, e.b)
    [] e.op = "lab" -> LET dd == D2(P(a,1), P(a,3)) * 256  r == a[5]*16  t == T(st,1) IN
                       LET in == Lt3(dd, (r-t)*(r-t))  up == Lt3(dd, (r+t)*(r+t)) IN
                       IF t = 0 THEN e.d = (IF D2(P(a,1), P(a,3)) = a[5]*a[5] THEN 2 ELSE IF D2(P(a,1), P(a,3)) < a[5]*a[5] THEN 0 ELSE 1)
                       ELSE CASE in = "?" \/ up = "?" -> TRUE [] in = "y" -> e.d = 0 [] up = "n" -> e.d = 1 [] OTHER -> e.d = 2
    [] e.op = "side" -> LET p == P(a,1) q == P(a,3) k == Cross(p, q, P(a,5)) n == NearLine(st, p, q, P(a,5))
                            A == p[2] - q[2]  sc == SmallComp(st, A, D2(p,q)) IN
                        /\ Fits(n, e.d = 0)
                        /\ (n = "n") => IF (A # 0) /\ sc = "n" THEN e.d = Sgn(k) * Sgn(A) ELSE IF A = 0 THEN e.d = Sgn(k) * Sgn(q[1]-p[1]) ELSE TRUE
    [] e.op = "gp" -> LET l == a[7] IN Cross(P(a,1), P(a,3), P(a,5)) = 0 => e.d[1] \in (l*10000)-30..(l*10000)+30 /\ e.d[2] \in (l*10000)-30..(l*10000)+30
    [] e.op = "os" -> LET p == P(a,1) q == P(a,3) z == P(a,5) u == Dir(p,q) l2 == D2(p,q) w == (z[1]-p[1])*u[1] + (z[2]-p[2])*u[2] IN
                      /\ PtOk(e.q, z) /\ PtFxOk(e.p, p[1]*l2 + u[1]*w, p[2]*l2 + u[2]*w, l2)
    [] e.op = "leq" -> LET p == P(a,2) q == P(a,4) c == P(a,6) d == P(a,8) par == LineDirPar(st, p, q, c, d) IN
                       /\ (par = "n" => ~e.b)
                       /\ (par = "y" /\ Dir(p,q)[1]*Dir(c,d)[2] = Dir(p,q)[2]*Dir(c,d)[1] => LET k == Cross(p,q,c) IN
                            IF T(st,1) = 0 /\ k = 0 /\ st.fl THEN TRUE ELSE Fits(Under(k*k, D2(p,q), T(st,1)), e.b))
    [] e.op = "par" -> Fits(LineDirPar(st, P(a,2), P(a,4), P(a,6), P(a,8)), e.b)
    [] e.op = "it" -> IF a[1] = 3 THEN LET par == LineDirPar(st, P(a,2), P(a,4), P(a,6), P(a,8)) IN Fits(NotD(par), e.b)
                      ELSE LET z == InterNum(P(a,2), P(a,4), P(a,6), P(a,8))  \* (not where rounded coefficients are too coarse)
                           IN (st.fl /\ z[3]*z[3]*64 < D2(P(a,2), P(a,4)) * D2(P(a,6), P(a,8))) \/ PtFxOk(e.p, z[1], z[2], z[3])
    [] e.op = "hc" -> TRUE
    [] e.op = "inv" -> e.b
    [] e.op = "heq" -> Fits(NotD(OrAll([ i \in 1..8 |-> IF T(st,5) = 0 THEN (IF a[9+i] = 0 THEN "n" ELSE "y") ELSE NotD(Lt3(Abs(a[9+i]), T(st,5))) ])), e.b)
    [] e.op = "inf" -> Fits(IF a[3] = 0 THEN "y" ELSE IF T(st,4) = 0 THEN "n" ELSE Lt3(Abs(a[3]), T(st,4)), e.b)
    [] e.op = "cd" -> LET x1 == a[1] y1 == a[2] dx == a[3]-a[1] dy == a[4]-a[2] v == a[6] IN
                      FxOk(e.d, IF a[5] = 0 THEN y1*dx + (v-x1)*dy ELSE x1*dy + (v-y1)*dx, IF a[5] = 0 THEN dx ELSE dy)
    [] e.op = "rc" -> e.d = << 10000 * Min2(a[2],a[4]), 10000 * Min2(a[3],a[5]), 10000 * Max2(a[2],a[4]), 10000 * Max2(a[3],a[5]) >>
    [] e.op = "bb" -> LET v == PtsAt(a, 2, a[1]) IN e.d = << 10000 * MinX(v), 10000 * MinY(v), 10000 * MaxX(v), 10000 * MaxY(v) >>
    [] e.op = "min" -> LET v == PtsAt(a, 3, a[2])  k == MinKeep(st, v, a[1] = 1)
                       IN (\E i \in 1..Len(v) : k[i] = "?") \/ e.p = FoldLeft(LAMBDA h, i : IF k[i] = "y" THEN h ELSE Append(h, << v[i][1]*10000, v[i][2]*10000 >>), << >>, [ i \in 1..Len(v) |-> i ])
    [] e.op = "pip" -> LET v == PtsAt(a, 4, a[1])  z == P(a,2) IN
                       \* within the tolerance of an edge is on the outline; else inside is decided as usual when the tolerance is tiny
                       IF ~SimplePoly(v) \/ ~Plain(st) THEN TRUE
                       ELSE LET e1 == OrAll([ i \in 1..Len(v) |-> LET n == Nxt(i, Len(v))  u == Dir(v[i],v[n])  w == (z[1]-v[i][1])*u[1] + (z[2]-v[i][2])*u[2] IN
                                 IF w <= 0 THEN Same(st, z, v[i]) ELSE IF w >= D2(v[i],v[n]) THEN Same(st, z, v[n]) ELSE NearLine(st, v[i], v[n], z) ])
                            IN (e1 = "y" => ~e.b) /\ (e1 = "n" /\ T(st,1) = 0 => e.b = InPoly(z, v)) /\ (~InPoly(z, v) => ~e.b)
    [] OTHER -> TRUE
Special == {"set","save","restore","pr","begin"}
Next1(st, e) == CASE e.op = "set" -> [ st EXCEPT !.t[e.a[1]] = e.a[2] ]
                  [] e.op = "save" -> [ st EXCEPT !.s[e.a[1]] = st.t[e.a[1]] ]
                  [] e.op = "restore" -> [ st EXCEPT !.t[e.a[1]] = st.s[e.a[1]] ]
                  [] OTHER -> st
Accepts(st, e) ==
  /\ e.r \in {"ok","throw"}
  /\ e.th = Next1(st, e).t /\ e.nr = FALSE              \* what is read back, whatever was asked; the other switch is left alone
  /\ IF e.op \in Special THEN e.r = "ok" /\ (e.op = "pr" => e.v = st.t)
     ELSE LET w == Throws(st, e) IN Fits(w, e.r = "throw") /\ (e.r = "ok" => Answer(st, e))
Apply(st, e) == IF e.op = "begin" THEN [ InitSt EXCEPT !.t = e.df, !.s = e.df, !.fl = e.fl ] ELSE Next1(st, e)
=============================================================================
