-------------------------------- MODULE Homog -------------------------------
(***************************************************************************)
(* Three homographies.  A slot is [m, d, x, q]: nine integers and a common   *)
(* denominator d > 0 (cell = m/d); x: only operations exact in binary were   *)
(* used; q: bound on the relative error of the cells, in units of the float  *)
(* rounding (saturated at QMax).  d = 0: the contents are unknown (the value *)
(* of a rounded quantity decided, or an unjudged call).                      *)
(***************************************************************************)
EXTENDS Geom
QMax == 100000
Id9 == <<1,0,0, 0,1,0, 0,0,1>>
Eye == [ m |-> Id9, d |-> 1, x |-> TRUE, q |-> 0 ]
Lost == [ m |-> Id9, d |-> 0, x |-> FALSE, q |-> QMax ]
Slots == 1..3
InitSt == [ s |-> [ i \in Slots |-> Eye ], f |-> FALSE, eig |-> TRUE, cv |-> TRUE ]

MaxAbs(m) == MaxSet({ Abs(m[i]) : i \in 1..Len(m) })
RECURSIVE GcdAll(_,_)
GcdAll(m, i) == IF i = 0 THEN 0 ELSE Gcd(GcdAll(m, i-1), m[i])
Red(m, d) == LET g0 == GcdAll(m, 9)
                 g == Gcd(g0, d)
                 s == IF d < 0 THEN -1 ELSE 1
             IN << [ i \in 1..9 |-> s * (m[i] \div g) ], Abs(d) \div g >>
Mk(md, x, q) == LET r == Red(md[1], md[2]) IN [ m |-> r[1], d |-> r[2], x |-> x, q |-> Min2(q, QMax) ]
IX(i, j) == 3*(i-1) + j
Mul9(a, b) == [ k \in 1..9 |-> LET i == ((k-1) \div 3) + 1  j == ((k-1) % 3) + 1
                               IN a[IX(i,1)]*b[IX(1,j)] + a[IX(i,2)]*b[IX(2,j)] + a[IX(i,3)]*b[IX(3,j)] ]
Tr9(a) == <<a[1],a[4],a[7], a[2],a[5],a[8], a[3],a[6],a[9]>>
Adj9(a) == << a[5]*a[9]-a[6]*a[8], a[3]*a[8]-a[2]*a[9], a[2]*a[6]-a[3]*a[5],
              a[6]*a[7]-a[4]*a[9], a[1]*a[9]-a[3]*a[7], a[3]*a[4]-a[1]*a[6],
              a[4]*a[8]-a[5]*a[7], a[2]*a[7]-a[1]*a[8], a[1]*a[5]-a[2]*a[4] >>
Det9(a) == LET c == Adj9(a) IN a[1]*c[1] + a[2]*c[4] + a[3]*c[7]
Ceil(a, b) == (a + b - 1) \div b
Pow2(d) == d \in {1,2,4,8,16,32,64}

\* normalized by the last cell: TRUE/FALSE whether that is possible
Norm(z) == LET n == z.m[9]
           IN Mk(<< z.m, n >>, z.x /\ Pow2(Abs(n) \div Gcd(n, z.d)) , z.q + 1 + z.q * Ceil(MaxAbs(z.m), Max2(1,Abs(n))))
Prod(a, b) == LET p == Mul9(a.m, b.m)
                  g == Ceil(3 * MaxAbs(a.m) * MaxAbs(b.m), Max2(1, MaxAbs(p)))
              IN Mk(<<p, a.d * b.d>>, a.x /\ b.x, Min2(QMax, a.q + b.q + 1) * Min2(g, 1000))
KInv(z) == Ceil(6 * MaxAbs(z.m) * MaxAbs(Adj9(z.m)), Max2(1, Abs(Det9(z.m))))
Inv(z) == LET a == Adj9(z.m)  e == Det9(z.m)        \* (m/d)^-1 = d adj(m) / det(m)
          IN Norm(Mk(<< [ i \in 1..9 |-> a[i] * z.d ], e >>, z.x /\ Pow2(Abs(e)), Min2(QMax, z.q + 1) * Min2(KInv(z), 1000)))

\* angles: k < 4 a multiple of 90 degrees, otherwise cosine and sine a fifth of
Ang5 == << <<3,4>>, <<4,3>>, <<-3,4>>, <<-4,3>>, <<3,-4>>, <<4,-3>>, <<-3,-4>>, <<-4,-3>> >>
CosSin(k) == CASE k = 0 -> <<1,0,1>> [] k = 1 -> <<0,1,1>> [] k = 2 -> <<-1,0,1>> [] k = 3 -> <<0,-1,1>>
               [] OTHER -> << Ang5[k-3][1], Ang5[k-3][2], 5 >>
RotM(k) == LET c == CosSin(k) IN Mk(<< <<c[1],-c[2],0, c[2],c[1],0, 0,0,c[3]>>, c[3] >>, k = 0, 1)
TraM(x, y) == [ Eye EXCEPT !.m = <<1,0,x, 0,1,y, 0,0,1>> ]
ScaM(a, b, d) == Mk(<< <<a,0,0, 0,b,0, 0,0,d>>, d >>, Pow2(d), 0)
\* the outcome of storing a product or a rebuilt matrix, which is normalized on the way:
\* <<new slot, must throw, throwing or not is not decided>>
Normed(old, z) == IF z.d = 0 THEN << Lost, FALSE, TRUE >>
                  ELSE IF z.m[9] = 0 THEN (IF z.x THEN << old, TRUE, FALSE >> ELSE << Lost, FALSE, TRUE >>)
                  ELSE << Norm(z), FALSE, FALSE >>
Sure(z) == << z, FALSE, FALSE >>
Mulo(old, a, b) == IF a.d = 0 \/ b.d = 0 THEN << Lost, FALSE, TRUE >> ELSE Normed(old, Prod(a, b))
Refused(old) == << old, TRUE, FALSE >>

\* --- the homography given by four pairs of points, exactly: with M(p) the matrix whose columns
\* are the first three points weighted so that they add up to the fourth, it is M(q) M(p)^-1
Det3(p, q, r) == (q[1]-p[1])*(r[2]-p[2]) - (r[1]-p[1])*(q[2]-p[2])
GenPos(p) == \A i, j, k \in 1..4 : (i < j /\ j < k) => Det3(p[i], p[j], p[k]) # 0
Basis(p) == LET g0 == << Det3(p[4],p[2],p[3]), Det3(p[1],p[4],p[3]), Det3(p[1],p[2],p[4]) >>
                g == Gcd(Gcd(g0[1], g0[2]), g0[3])
                w == << g0[1] \div g, g0[2] \div g, g0[3] \div g >>
            IN << w[1]*p[1][1], w[2]*p[2][1], w[3]*p[3][1],  w[1]*p[1][2], w[2]*p[2][2], w[3]*p[3][2],  w[1], w[2], w[3] >>
Red9(m) == LET g == GcdAll(m, 9) IN IF g = 0 THEN m ELSE [ i \in 1..9 |-> m[i] \div g ]
FourM(p, q) == Red9(Mul9(Basis(q), Red9(Adj9(Basis(p)))))
List(a, i) == [ k \in 1..a[i] |-> << a[i + 2*k - 1], a[i + 2*k] >> ]
FourArgs(a) == << List(a, 3), List(a, 4 + 2*a[3]) >>
\* method 0 is Eigen, 1 (the default) is OpenCv
FourHas(st, v) == IF v % 2 = 0 /\ v # 4 THEN st.eig ELSE st.cv
FourOut(st, z, a) ==
  LET pq == FourArgs(a)  p == pq[1]  q == pq[2]
  IN IF Len(p) # 4 \/ Len(q) # 4 \/ ~FourHas(st, a[2]) THEN << z, TRUE, FALSE >>
     ELSE IF ~GenPos(p) \/ ~GenPos(q) THEN << Lost, FALSE, TRUE >>           \* no such homography: nothing is promised
     ELSE LET m == FourM(p, q) IN IF m[9] = 0 THEN << Lost, FALSE, TRUE >>      \* not of the form with a last cell of 1
                                  ELSE << Mk(<<m, m[9]>>, FALSE, 3), FALSE, FALSE >>

\* <<new contents of slot a[1], must throw, open>>
Out(st, e) ==
  LET a == e.a
      z == st.s[a[1]]
      unk == z.d = 0
  IN CASE e.op = "init" -> Sure(Eye)
       [] e.op = "ctor" -> Sure(CASE a[2] = 0 -> Eye [] a[2] = 1 -> RotM(a[3]) [] OTHER -> TraM(a[3], a[4]))
       [] e.op = "st" -> IF a[2] = 0 THEN Sure(TraM(a[3], a[4])) ELSE Mulo(z, TraM(a[3], a[4]), z)
       [] e.op = "sr" -> IF a[2] = 0 THEN Sure(RotM(a[3])) ELSE Mulo(z, RotM(a[3]), z)
       [] e.op = "ss" -> IF a[2] \in {0,2} THEN Sure(ScaM(a[3], a[4], a[5])) ELSE Mulo(z, ScaM(a[3], a[4], a[5]), z)
       [] e.op = "cell" -> IF a[2] > 2 \/ a[3] > 2 THEN Refused(z)
                           ELSE IF unk THEN Sure(Lost)
                           ELSE Sure(Mk(<< [ [ i \in 1..9 |-> z.m[i] * a[5] ] EXCEPT ![3*a[2]+a[3]+1] = a[4] * z.d ], z.d * a[5] >>, z.x, z.q))
       [] e.op = "mul" -> Mulo(z, st.s[a[2]], st.s[a[3]])
       [] e.op = "inv" -> IF unk THEN << Lost, FALSE, TRUE >>
                          ELSE IF Det9(z.m) = 0 THEN (IF z.x THEN Refused(z) ELSE << Lost, FALSE, TRUE >>)
                          ELSE IF Adj9(z.m)[9] = 0 THEN (IF z.x THEN Refused(z) ELSE << Lost, FALSE, TRUE >>)
                          ELSE Sure(Inv(z))
       [] e.op = "tra" -> IF unk THEN Sure(Lost) ELSE Sure([ z EXCEPT !.m = Tr9(z.m) ])
       [] e.op = "nrm" -> Normed(z, z)
       [] e.op \in {"asg","cpy"} -> Sure(st.s[a[2]])
       [] e.op = "vec" -> IF a[2] >= 3 THEN Refused(z)
                          ELSE Normed(z, Mk(<< SubSeq(a, 3, 11), a[12] >>, Pow2(a[12]), 0))
       [] e.op = "cvm" -> IF a[2] >= 6 THEN Refused(z)                           \* size, type or channels
                          ELSE Sure(Mk(<< SubSeq(a, 3, 11), a[12] >>, Pow2(a[12]), 0))   \* as it is, not normalized
       [] e.op = "f4p" -> FourOut(st, z, a)
       [] OTHER -> Sure(z)

(*----------------------------- observations ------------------------------*)
Tol(st, z, v) == IF st.f THEN 5 + ((Abs(v) \div 10000) + 1) * ((z.q + 1) \div 500 + 1) ELSE 3 + (Abs(v) \div 1000000)
Judged(st, z) == z.d # 0 /\ (st.f => z.q < 3000)
CellsOk(st, z, e) == ~Judged(st, z) \/
  /\ \A i \in 1..9 : LET v == Fx(z.m[i], z.d) IN Near(e.m[i], v, Tol(st, z, (MaxAbs(z.m) * S) \div z.d))
  /\ e.raw
  /\ e.nz => z.m[9] = z.d                        \* said to be normalized: it is
  /\ (z.d <= 12 /\ Abs(Det9(z.m)) <= 200000 /\ ~st.f) => Near(e.det, Fx(Det9(z.m), z.d*z.d*z.d), 5)

\* two strictly convex quadrilaterals with the same direction, the first one around the origin:
\* the homography exists and its last cell is not null
Turn4(p, i) == Sgn(Cross(p[i], p[Nxt(i,4)], p[Nxt(Nxt(i,4),4)]))
Convex4(p) == Turn4(p,1) # 0 /\ \A i \in 2..4 : Turn4(p,i) = Turn4(p,1)
Around0(p) == \A i \in 1..4 : Sgn(Cross(p[i], p[Nxt(i,4)], <<0,0>>)) = Turn4(p,1)
FourImgOk(st, e) ==
  LET pq == FourArgs(e.a)  p == pq[1]  q == pq[2]
  IN IF Len(p) # 4 \/ Len(q) # 4 \/ ~FourHas(st, e.a[2] % 2) THEN e.oT
     ELSE \/ ~(Convex4(p) /\ Convex4(q) /\ Turn4(p,1) = Turn4(q,1) /\ Around0(p))
          \/ st.f
          \/ ~e.oT /\ \A i \in 1..4 : Near(e.o[i][1], q[i][1] * S, 20) /\ Near(e.o[i][2], q[i][2] * S, 20)

\* what an exported matrix holds: the cells, whatever their type
ExportOk(st, z, e) == ~Judged(st, z) \/
  \A i \in 1..9 : LET v == Fx(z.m[i], z.d) IN Near(e.m[i], v, Tol([ st EXCEPT !.f = TRUE ], z, (MaxAbs(z.m) * S) \div z.d))

\* image of a point: homogeneous integers
Img(z, p) == << z.m[1]*p[1] + z.m[2]*p[2] + z.m[3], z.m[4]*p[1] + z.m[5]*p[2] + z.m[6], z.m[7]*p[1] + z.m[8]*p[2] + z.m[9] >>
PtTol(st, z, h) ==    \* tolerance on the image point, and whether it is judged at all
  LET mm == Ceil(MaxAbs(z.m) * 20, Abs(h[3]))
      v == Max2(Abs(h[1]), Abs(h[2])) \div Abs(h[3])
  IN IF st.f THEN 5 + ((((z.q+2) * Min2(mm, 10000)) \div 500) + 1) * (1 + v) ELSE 3 + (v \div 100)
ImgJudged(st, z, h) == h[3] # 0 /\ (st.f => (z.q+2) * Min2(Ceil(MaxAbs(z.m) * 20, Abs(h[3])), 1000) < 20000)
ImgOk(st, z, p, q) ==
  LET h == Img(z, p)
  IN ~ImgJudged(st, z, h) \/ LET t == PtTol(st, z, h) IN Near(q[1], Fx(h[1], h[3]), t) /\ Near(q[2], Fx(h[2], h[3]), t)

\* image of the line through p1 and p2: transposed adjugate applied to its coefficients
Line3(p, q) == << p[2] - q[2], q[1] - p[1], Cross(<<0,0>>, p, q) >>
LineImg(z, l) == LET c == Adj9(z.m) IN << c[1]*l[1] + c[4]*l[2] + c[7]*l[3], c[2]*l[1] + c[5]*l[2] + c[8]*l[3], c[3]*l[1] + c[6]*l[2] + c[9]*l[3] >>
Red3(t) == LET g == Gcd(Gcd(t[1], t[2]), t[3]) IN IF g = 0 THEN t ELSE << t[1] \div g, t[2] \div g, t[3] \div g >>
LineOk(st, z, l, o) ==
  LET r0 == LineImg(z, l)
      r == Red3(r0)
      k == Ceil(MaxAbs(Adj9(z.m)) * 3 * MaxAbs(l), Max2(1, Max2(Abs(r0[1]), Abs(r0[2]))))
      \* line at infinity, or too large for exact arithmetic here, or badly conditioned
      open == (r[1] = 0 /\ r[2] = 0) \/ MaxAbs(r) > 9000 \/ (st.f /\ (Min2(k,1000) * Min2(KInv(z),1000) * 2 > 10000 \/ Min2(k,1000) * Min2(KInv(z),1000) * (z.q+2) > 50000))
      eps == IF st.f THEN 10 ELSE 3      \* in thousandths
      n2 == o[1]*o[1] + o[2]*o[2]
  IN open \/
     /\ n2 > 990000 /\ n2 < 1010000
     /\ Abs(o[1]*r[2] - o[2]*r[1]) <= eps * (Abs(r[1]) + Abs(r[2]))
     /\ Abs(r[3]) \div Max2(Abs(r[1]), Abs(r[2])) < 150 =>
          /\ Abs(o[3]) <= 230000
          /\ LET big == Abs(r[1]) + Abs(r[2]) + Abs(r[3]) IN
             \* the largest coefficient fixes the other two
             IF Abs(r[1]) >= Abs(r[2]) THEN Abs(o[3]*r[1] - o[1]*r[3]) <= eps * big ELSE Abs(o[3]*r[2] - o[2]*r[3]) <= eps * big
SlotLine(st, z, l, e) ==
  IF z.d = 0 THEN TRUE
  ELSE IF Det9(z.m) = 0 THEN ~z.x \/ e.lT          \* the transformation of lines does not exist
  ELSE \/ ~Judged(st, z)
       \/ (Red3(LineImg(z, l))[1] = 0 /\ Red3(LineImg(z, l))[2] = 0)
       \/ (~e.lT /\ LineOk(st, z, l, e.l))
\* the image line goes through the images of the points
OnLine(st, z, p, dT, d) ==
  LET h == Img(z, p)
      v == Max2(Abs(h[1]), Abs(h[2])) \div Abs(h[3])
  IN (h[3] # 0 /\ ~st.f /\ v < 1000) => (~dT /\ Abs(d) <= 5)
AplOk(st, e) ==
  LET z == st.s[e.a[1]]
      p == <<e.a[2],e.a[3]>>  q == <<e.a[4],e.a[5]>>
      l == Line3(p, q)
  IN IF p = q THEN e.r = "skip"
     ELSE /\ e.r = "ok"
          /\ SlotLine(st, z, l, e)
          /\ (z.d # 0 /\ Det9(z.m) # 0 /\ ~e.lT /\ LET i == LineImg(z, l) IN i[1] # 0 \/ i[2] # 0)
               => OnLine(st, z, p, e.d1T, IF e.d1T THEN 0 ELSE e.d1) /\ OnLine(st, z, q, e.d2T, IF e.d2T THEN 0 ELSE e.d2)

(*------------------------- images of figures -----------------------------*)
Pts(a, from) == [ i \in 1..a[from] |-> << a[from + 2*i - 1], a[from + 2*i] >> ]
HEq(g, h) == g[1]*h[3] = h[1]*g[3] /\ g[2]*h[3] = h[2]*g[3]
HCmpX(g, h) == Sgn(g[1]*h[3] - h[1]*g[3]) * Sgn(g[3]) * Sgn(h[3])
HCmpY(g, h) == Sgn(g[2]*h[3] - h[2]*g[3]) * Sgn(g[3]) * Sgn(h[3])
\* the figures of the container, as lists of points; sorted: a plain segment lists its end points in order
RectCorners(p, q) == LET r == MkRect(p[1],p[2],q[1],q[2]) IN << <<r[1],r[2]>>, <<r[1],r[4]>>, <<r[3],r[4]>>, <<r[3],r[2]>> >>
PairsOf(w) == [ i \in 1..(Len(w) \div 2) |-> << w[2*i-1], w[2*i] >> ]
Figs(k, w) ==
  CASE k \in {3,4} -> << <<w[1], w[2]>> >>
    [] k = 5 -> << RectCorners(w[1], w[2]) >>
    [] k \in {7,8} -> << w >>
    [] k = 18 -> << w, w >>
    [] k \in {11,12,13,16} -> [ i \in 1..(IF k = 13 THEN 3 ELSE Len(w)) |-> << w[i] >> ]
    [] OTHER -> PairsOf(w)
Need(k) == CASE k \in {3,4,5} -> 2 [] k = 13 -> 3 [] OTHER -> 0
ValidFig(k, g) == CASE k = 5 -> g[1][1] # g[3][1] /\ g[1][2] # g[3][2]
                    [] k \in {11,12,13,16} -> TRUE
                    [] k \in {7,8,18} -> Len(g) # 1 /\ \A i \in 1..Len(g) : g[i] # g[Nxt(i,Len(g))]
                    [] OTHER -> g[1] # g[2]
Collapses(st, z, k, g) ==   \* neighbours of the image that coincide, or may do so up to rounding
  \E i \in 1..(Len(g)-1) : HEq(Img(z, g[i]), Img(z, g[i+1]))
Wraps(z, k, g) == k \in {5,7,8,18} /\ Len(g) > 2 /\ HEq(Img(z, g[1]), Img(z, g[Len(g)]))      \* the ends coincide: nothing is promised
FigImgOk(st, z, k, g, o) ==
  /\ Len(o) = Len(g)
  /\ IF k \in {3,14}
     THEN LET h1 == Img(z, g[1])  h2 == Img(z, g[2])
              c == IF HCmpX(h1,h2) # 0 THEN HCmpX(h1,h2) ELSE HCmpY(h1,h2)
          IN IF HCmpX(h1,h2) # 0 \/ z.x THEN (IF c < 0 THEN ImgOk(st,z,g[1],o[1]) /\ ImgOk(st,z,g[2],o[2]) ELSE ImgOk(st,z,g[2],o[1]) /\ ImgOk(st,z,g[1],o[2]))
             ELSE (ImgOk(st,z,g[1],o[1]) /\ ImgOk(st,z,g[2],o[2])) \/ (ImgOk(st,z,g[2],o[1]) /\ ImgOk(st,z,g[1],o[2]))
     ELSE \A i \in 1..Len(g) : ImgOk(st, z, g[i], o[i])
FigsOk(st, e) ==
  LET z == st.s[e.a[1]]
      k == e.a[2]
      w == Pts(e.a, 3)
  IN IF Len(w) < Need(k) THEN e.r = "skip"
     ELSE LET gs == Figs(k, w) IN
          IF \E i \in 1..Len(gs) : ~ValidFig(k, gs[i]) THEN e.r = "ok" /\ e.k = "invalid"
          ELSE /\ e.r = "ok" /\ e.k # "invalid"
               /\ \/ z.d = 0
                  \/ ~Judged(st, z)
                  \/ (\E i \in 1..Len(gs) : \E j \in 1..Len(gs[i]) : ~ImgJudged(st, z, Img(z, gs[i][j])))
                  \/ (\E i \in 1..Len(gs) : Wraps(z, k, gs[i]))
                  \/ ((st.f \/ ~z.x) /\ \E i \in 1..Len(gs) : Collapses(st, z, k, gs[i]))
                  \/ IF \E i \in 1..Len(gs) : Collapses(st, z, k, gs[i]) THEN e.k = "throw"
                     ELSE e.k = "ok" /\ Len(e.o) = Len(gs) /\ \A i \in 1..Len(gs) : FigImgOk(st, z, k, gs[i], e.o[i])
LinesOk(st, e) ==
  LET z == st.s[e.a[1]]
      w == Pts(e.a, 3)
      ls == PairsOf(w)
      imgs == [ i \in 1..Len(ls) |-> LineImg(z, Line3(ls[i][1], ls[i][2])) ]
  IN IF \E i \in 1..Len(ls) : ls[i][1] = ls[i][2] THEN e.r = "skip"
     ELSE \/ z.d = 0 \/ ~Judged(st, z)
          \/ (\E i \in 1..Len(ls) : imgs[i][1] = 0 /\ imgs[i][2] = 0)
          \/ e.r = "ok" /\ IF Det9(z.m) = 0 THEN (~z.x \/ e.oT \/ ls = <<>>)
                           ELSE ~e.oT /\ Len(e.o) = Len(ls) /\ \A i \in 1..Len(ls) : LineOk(st, z, Line3(ls[i][1], ls[i][2]), e.o[i])

(*------------------------------ comparison -------------------------------*)
EqOk(st, e) ==
  LET y == st.s[e.a[1]]  z == st.s[e.a[2]]
      n(t) == t.m[9] # 0
      same == \A i \in 1..9 : y.m[i] * z.m[9] = z.m[i] * y.m[9]
  IN \/ y.d = 0 \/ z.d = 0 \/ ~Judged(st, y) \/ ~Judged(st, z)
     \/ IF n(y) /\ n(z)
        THEN /\ ~e.qT /\ ~e.neT /\ e.q = ~e.ne
             /\ e.q => same
             /\ (same /\ ((Norm(y).x /\ Norm(z).x) \/ (e.a[1] = e.a[2]))) => e.q
        ELSE (y.x /\ z.x) => e.qT /\ e.neT
EqState(st, e) ==        \* comparing normalizes
  LET i == e.a[1]  j == e.a[2]
      nz(t) == IF t.d # 0 /\ t.m[9] # 0 THEN Norm(t) ELSE IF t.d # 0 /\ t.x THEN t ELSE Lost
      y == nz(st.s[i])
      s1 == [ st.s EXCEPT ![i] = y ]
  \* when the first can not be normalized the second is not reached
  IN IF y = st.s[i] /\ y.m[9] = 0 THEN st ELSE [ st EXCEPT !.s = [ s1 EXCEPT ![j] = nz(s1[j]) ] ]

Modifiers == {"init","ctor","st","sr","ss","cell","mul","inv","tra","nrm","asg","cpy","vec","cvm","f4p"}
Accepts(st, e) ==
  CASE "r" \in DOMAIN e /\ e.r = "crash" -> FALSE
    [] e.op = "begin" -> TRUE
    [] e.op \in Modifiers -> LET o == Out(st, e)
                             IN IF e.r = "skip" THEN e.op = "tra" \/ e.op = "ss" \/ (e.op = "cell" /\ e.a[6] >= 2)
                                ELSE o[3] \/ (e.r = "throw") = o[2]
    [] e.op = "cvx" -> IF e.a[2] = 6 THEN e.r = "throw" ELSE e.r = "ok" /\ e.fmt /\ ExportOk(st, st.s[e.a[1]], e)
    [] e.op = "f4i" -> e.r = "ok" /\ FourImgOk(st, e)
    [] e.op = "obs" -> e.r = "ok" /\ CellsOk(st, st.s[e.a[1]], e)
    [] e.op = "app" -> LET z == st.s[e.a[1]]  h == Img(z, <<e.a[2],e.a[3]>>)
                       IN e.r = "ok" /\ (z.d = 0 \/ ~Judged(st, z) \/ ~ImgJudged(st, z, h) \/ (~e.pT /\ ImgOk(st, z, <<e.a[2],e.a[3]>>, e.p)))
    [] e.op = "apl" -> AplOk(st, e)
    [] e.op = "img" -> FigsOk(st, e)
    [] e.op = "iml" -> LinesOk(st, e)
    [] e.op = "eq" -> EqOk(st, e)
    [] OTHER -> FALSE
Apply(st, e) ==
  IF e.op = "begin" THEN (IF "f" \in DOMAIN e THEN [ InitSt EXCEPT !.f = e.f, !.eig = e.eig, !.cv = e.cv ] ELSE InitSt)
  ELSE IF e.op \in Modifiers THEN (IF "r" \in DOMAIN e /\ e.r = "skip" THEN st ELSE [ st EXCEPT !.s[e.a[1]] = Out(st, e)[1] ])
  ELSE IF e.op = "eq" THEN EqState(st, e)
  ELSE st
=============================================================================
