------------------------------- MODULE Ellipse ------------------------------
(***************************************************************************)
(* Ellipses in slots.  An ellipse is the image of the unit disk: its centre  *)
(* (x,y)/w and its shape matrix (a b; b c)/d, the matrix M such that a point  *)
(* p is inside iff (p-c)' M^-1 (p-c) < 1.  Then the squared semi-axes are the  *)
(* eigenvalues of M, the half sides of its bounding box are the roots of its   *)
(* diagonal, and its image by an affine map L is the shape L M L'.             *)
(* The image by any homography follows from the dual conic.                    *)
(* q: 0 = as built by the constructor, > 0 = through rounding; lo: went         *)
(* through a narrower numeric type; id: copies share it.                       *)
(***************************************************************************)
EXTENDS Geom
Lost == [ x |-> 0, y |-> 0, w |-> 0, a |-> 0, b |-> 0, c |-> 0, d |-> 0, q |-> 0, lo |-> FALSE, id |-> 0 ]
E0 == [ x |-> 0, y |-> 0, w |-> 1, a |-> 4, b |-> 0, c |-> 1, d |-> 1, q |-> 0, lo |-> FALSE, id |-> 0 ]
Slots == 1..3
InitSt == [ e |-> [ i \in Slots |-> E0 ], n |-> 0, f |-> FALSE ]
Known(z) == z.w # 0
Det(z) == z.a * z.c - z.b * z.b
Gcd3(a, b, c) == Gcd(Gcd(a, b), c)
Mx(a, b) == Max2(Abs(a), Abs(b))
\* normalized record, or Lost when too large to be followed
Mk(x, y, w, a, b, c, d, q, lo) ==
  LET g == Gcd3(x, y, w)  h == Gcd(Gcd3(a, b, c), d)
      sw == Sgn(w)  sd == Sgn(d)
      z == [ x |-> sw * (x \div g), y |-> sw * (y \div g), w |-> Abs(w) \div g,
             a |-> sd * (a \div h), b |-> sd * (b \div h), c |-> sd * (c \div h), d |-> Abs(d) \div h, q |-> q, lo |-> lo, id |-> 0 ]
  IN IF w = 0 \/ d = 0 THEN Lost
     ELSE IF z.w > 200 \/ z.d > 2000 \/ Mx(z.x, z.y) > 10000 \/ Mx(z.a, z.c) > 20000 THEN Lost
     ELSE IF Mx(z.x, z.y) \div z.w > 120 \/ Mx(z.a, z.c) \div z.d > 900 THEN Lost
     ELSE IF z.a <= 0 \/ z.c <= 0 \/ Det(z) <= 0 THEN Lost
     \* (very flat ones are not followed)
     ELSE IF Det(z) \div (z.a + z.c) < (z.a + z.c) \div 400 + 1 /\ Det(z) * 400 < (z.a + z.c) * (z.a + z.c) THEN Lost
     ELSE z
\* angles with rational cosine and sine: multiples of 90 degrees, and those of the 3-4-5 triangle
Ang5 == << <<3,4>>, <<4,3>>, <<-3,4>>, <<-4,3>>, <<3,-4>>, <<4,-3>>, <<-3,-4>>, <<-4,-3>> >>
CosSin(k) == CASE k = 0 -> <<1,0,1>> [] k = 1 -> <<0,1,1>> [] k = 2 -> <<-1,0,1>> [] k = 3 -> <<0,-1,1>>
               [] OTHER -> << Ang5[k-3][1], Ang5[k-3][2], 5 >>
\* centre (cx,cy)/cd, semi-axes m >= n over md, angle k
Build(cx, cy, cd, m0, n0, md, k) ==
  LET m == Max2(m0, n0)  n == Min2(m0, n0)  t == CosSin(k)
      mm == m*m  nn == n*n
  IN Mk(cx, cy, cd, mm*t[1]*t[1] + nn*t[2]*t[2], (mm - nn)*t[1]*t[2], mm*t[2]*t[2] + nn*t[1]*t[1], md*md*t[3]*t[3], 0, FALSE)
Shift(z, dx, dy) == IF ~Known(z) THEN Lost ELSE Mk(z.x + dx*z.w, z.y + dy*z.w, z.w, z.a, z.b, z.c, z.d, z.q + 1, z.lo)
MoveTo(z, x, y, k) == IF ~Known(z) THEN Lost ELSE Mk(x, y, k, z.a, z.b, z.c, z.d, z.q + 1, z.lo)

(*------------------------- image by a homography --------------------------*)
Dual(z) == LET w2 == z.w * z.w IN      \* as <<q11, q12, q22, q13, q23, q33>>
  << z.a*w2 - z.d*z.x*z.x, z.b*w2 - z.d*z.x*z.y, z.c*w2 - z.d*z.y*z.y, -z.d*z.w*z.x, -z.d*z.w*z.y, -z.d*w2 >>
MaxA(t) == FoldLeft(LAMBDA m, v : Max2(m, Abs(v)), 0, t)
RedT(t) == LET g == FoldLeft(LAMBDA m, v : Gcd(m, v), 0, t) IN IF g = 0 THEN t ELSE [ i \in 1..Len(t) |-> t[i] \div g ]
\* row-vector times dual conic times column
Q3(t, u, v) == u[1]*(t[1]*v[1] + t[2]*v[2] + t[4]*v[3]) + u[2]*(t[2]*v[1] + t[3]*v[2] + t[5]*v[3]) + u[3]*(t[4]*v[1] + t[5]*v[2] + t[6]*v[3])
Row(h, i) == << h[3*i-2], h[3*i-1], h[3*i] >>
DetH(h) == h[1]*(h[5]*h[9]-h[6]*h[8]) - h[2]*(h[4]*h[9]-h[6]*h[7]) + h[3]*(h[4]*h[8]-h[5]*h[7])
\* the image of the dual conic; <<>> when the numbers are too large
ImgT(z, h) ==
  LET mz == Max2(MaxA(<<z.x, z.y>>), z.w)
  IN IF ~Known(z) \/ mz > 1000 \/ mz * mz > 2000000 \div Max2(z.d, Max2(z.a, z.c)) THEN <<>>
     ELSE LET t == RedT(Dual(z)) IN
          IF MaxA(t) > 200000 \/ MaxA(h) > 25 \/ MaxA(t) > 200000000 \div (9 * MaxA(h) * MaxA(h)) THEN <<>>
          ELSE RedT(<< Q3(t, Row(h,1), Row(h,1)), Q3(t, Row(h,1), Row(h,2)), Q3(t, Row(h,2), Row(h,2)),
                       Q3(t, Row(h,1), Row(h,3)), Q3(t, Row(h,2), Row(h,3)), Q3(t, Row(h,3), Row(h,3)) >>)
Img(z, h) ==
  LET t == ImgT(z, h) IN
  IF t = <<>> THEN Lost
  ELSE IF t[6] >= 0 \/ MaxA(t) > 30000 THEN Lost         \* not an ellipse / too large
  ELSE Mk(t[4], t[5], t[6], t[4]*t[4] - t[1]*t[6], t[4]*t[5] - t[2]*t[6], t[5]*t[5] - t[3]*t[6], t[6]*t[6], z.q + 1, z.lo)

(*------------------------------- membership -------------------------------*)
\* sign of (p-c)' M^-1 (p-c) - 1 for the point (px,py)/pd;  9: not decided here
Side(z, px, py, pd) ==
  LET u1 == px*z.w - z.x*pd   u2 == py*z.w - z.y*pd   k == pd*z.w
      g == Gcd3(u1, u2, k)  v1 == u1 \div g  v2 == u2 \div g  kk == k \div g
  IN IF Mx(v1, v2) > 1000 \/ kk > 1000 THEN 9
     ELSE IF Max2(Mx(v1, v2)*Mx(v1, v2), 1) > 500000000 \div (z.a + z.c) THEN 9
     ELSE LET num == z.c*v1*v1 - 2*z.b*v1*v2 + z.a*v2*v2
              dt == Det(z) IN
          IF num \div (kk*kk) > 20000000 \div z.d \/ dt > 200000000 THEN 9
          ELSE LET l == (num * 1) \div (kk*kk)   r == dt \div z.d IN
               \* integer parts first
               IF l > r + 1 THEN 1 ELSE IF r > l + 1 THEN -1
               ELSE IF num > 2000000000 \div z.d \/ dt > 2000000000 \div (kk*kk) THEN 9
               ELSE Sgn(num * z.d - dt * kk*kk)
\* far enough from the boundary to be judged in the float type
ClearSide(z, px, py, pd) ==
  LET u1 == px*z.w - z.x*pd   u2 == py*z.w - z.y*pd   k == pd*z.w
  IN /\ Mx(u1, u2) <= 300 /\ k <= 300 /\ Mx(u1, u2) * Mx(u1, u2) * (z.a + z.c) < 20000000 /\ Det(z) < 20000000
     /\ LET num == (z.c*u1*u1 - 2*z.b*u1*u2 + z.a*u2*u2) \div (k*k)  dt == Det(z) \div z.d IN
        Abs(num - dt) * 8 > dt + num + 16

(*------------------------------ transitions -------------------------------*)
Hm(e, i) == SubSeq(e.a, i, i + 8)
R(w) == [ w |-> w, o |-> FALSE ]
Out(st, e) ==
  LET a == e.a
      Z(i) == st.e[i]
  IN CASE e.op = "new" -> IF a[2] = 0 THEN E0
                          ELSE IF a[2] \in {1,2} THEN Mk(a[3], a[4], 1, 4, 0, 1, 1, 0, FALSE)
                          ELSE Build(a[3], a[4], 1, a[5], a[6], a[7], IF a[2] \in {3,5} THEN a[8] ELSE 0)
       [] e.op = "cir" -> Mk(a[3], a[4], 1, a[5]*a[5], 0, a[5]*a[5], 1, 0, FALSE)
       [] e.op = "cp" -> IF a[3] = 3 THEN [ Z(a[2]) EXCEPT !.lo = TRUE, !.q = @ + 1 ] ELSE Z(a[2])
       [] e.op = "tr" -> Shift(Z(a[1]), a[3], a[4])
       [] e.op = "mv" -> MoveTo(Z(a[1]), a[3], a[4], 1)
       [] e.op = "hom" -> Img(Z(a[2]), Hm(e, 4))
       [] e.op = "hci" -> Img(Mk(a[2], a[3], 1, a[4]*a[4], 0, a[4]*a[4], 1, 0, FALSE), Hm(e, 6))
       [] OTHER -> Lost
Writers == {"new","cir","cp","tr","mv","hom","hci"}

(*------------------------------ observations ------------------------------*)
Sc == 1000
Loose(st, z) == st.f \/ z.lo
\* how far a computed value may be: the conic matrix holds squared values, so float loses a lot
Far(z) == Mx(z.x, z.y) \div z.w + 1
Flat(z) == ((z.a + z.c) * 4) \div (Det(z) \div (z.a + z.c) + 1) > 60       \* min/max squared below ~1/15
Judge(st, z) == Known(z) /\ z.q <= 12 /\ (~Loose(st, z) \/ (z.q <= 4 /\ Far(z) <= 12 /\ ~Flat(z) /\ (z.a + z.c) \div z.d < 120))
K(st, z, k) == IF Loose(st, z) THEN k * 40 ELSE k
\* v at Sc is the square root of num/den (num/den <= 900, den <= 2000)
RootOk(st, z, v, num, den) ==
  LET ip == num \div den   rem == num % den
      sq == ip * 1000000 + (rem * 1000000) \div den      \* num/den * 1e6
  IN Near(v, ISqrt(sq), K(st, z, 3))
Tr(z) == z.a + z.c
\* value num/den at 100, for num/den up to 2000
F100(num, den) == (num \div den) * 100 + ((num % den) * 100) \div den
MajMinOk(st, z, m) ==
  LET ma == m[1] \div 10  mi == m[2] \div 10           \* at 100
      t == F100(Tr(z), z.d)                             \* at 100
  IN /\ m[1] > 0 /\ m[2] > 0 /\ m[1] < 60000 /\ m[2] <= m[1] + K(st, z, 2)
     /\ Near((ma*ma + mi*mi) \div 100, t, K(st, z, 2 + (ma + mi) \div 20))
     \* product: the root of the determinant
     /\ LET dd == z.d * z.d
            sq == IF Det(z) \div dd > 200000 \/ (Det(z) \div dd < 100 /\ dd > 2000000) THEN -1
                  ELSE IF Det(z) \div dd < 100 THEN ISqrt((Det(z) \div dd) * 1000000 + (((Det(z) % dd) * 1000) \div dd) * 1000) \div 10
                  ELSE IF Det(z) \div dd > 2000 THEN ISqrt(F100(Det(z), dd)) * 10 ELSE ISqrt(F100(Det(z), dd) * 100)   \* root at 100
        IN sq < 0 \/ dd > 20000000 \/ Near((ma * mi) \div 100, sq, K(st, z, 3 + (ma + mi) \div 20))
\* direction of the major axis, given as cosine and sine of twice the angle (scale S)
DirOk(st, z, o) ==
  LET u == << z.a - z.c, 2*z.b >>
      g == Max2(1, Gcd(u[1], u[2]))  v == << u[1] \div g, u[2] \div g >>
  IN /\ Abs(o[1]*o[1] + o[2]*o[2] - 100000000) <= 60000
     /\ (u # <<0,0>> /\ (Mx(u[1], u[2]) * 20 > Tr(z)) /\ Mx(v[1], v[2]) < 40000) =>
          /\ Abs(o[1]*v[2] - o[2]*v[1]) <= K(st, z, 4) * (Abs(v[1]) + Abs(v[2]))
          /\ (Abs(o[1]) > K(st, z, 20) => o[1]*v[1] >= 0) /\ (Abs(o[2]) > K(st, z, 20) => o[2]*v[2] >= 0)
CenOk(st, z, p) == Near(p[1], Fx(z.x, z.w), K(st, z, 4)) /\ Near(p[2], Fx(z.y, z.w), K(st, z, 4))
\* perimeter: second formula of Ramanujan, from the semi-axes (checked on their own) m at Sc
LenEll(m) == LET s == m[1] + m[2]  d == m[1] - m[2]
                 r == (d * 1000) \div s                 \* (a-b)/(a+b) at 1000
                 h == r * r                             \* at 1e6
                 root == ISqrt(4000000 - 3*h)           \* at 1000
                 frac == (3 * h) \div (10000 + root)    \* 3h/(10+sqrt(4-3h)) at 1000
             IN ((s * 3) + (s * 1416) \div 10000) + (((s * 314) \div 100) * frac) \div 1000
Circ(z) == z.a = z.c /\ z.b = 0
D100(p, r) == << (p[1] - r[1]) \div 100, (p[2] - r[2]) \div 100 >>       \* difference of recorded points, at 100
Sq(u) == u[1]*u[1] + u[2]*u[2]
ObbOk(st, z, q, m) ==
  /\ Len(q) = 4
  /\ \A i \in 1..4 : Abs(q[i][1]) < 3000000 /\ Abs(q[i][2]) < 3000000
  /\ LET c == << Fx(z.x, z.w), Fx(z.y, z.w) >>
         s(i) == D100(q[Nxt(i,4)], q[i])
         k == K(st, z, 4)
         ma == m[1] \div 10  mi == m[2] \div 10
         L2(i) == ISqrt(Sq(s(i)))
     IN /\ \A j \in 1..2 : Near(q[1][j] + q[3][j], 2*c[j], 20 * k) /\ Near(q[2][j] + q[4][j], 2*c[j], 20 * k)
        /\ \A i \in 1..4 : Abs(DotV(s(i), s(Nxt(i,4)))) <= (k + 2) * (Abs(s(i)[1]) + Abs(s(i)[2]) + Abs(s(Nxt(i,4))[1]) + Abs(s(Nxt(i,4))[2]))
        \* sides alternate between the two axes: lengths, and direction of the long ones
        /\ \E i \in 1..2 : LET u == s(i)  v == s(i+1) IN
             /\ Near(L2(i), 2*ma, k + 2) /\ Near(L2(i+1), 2*mi, k + 2)
             /\ (m[1] > m[2] + m[2] \div 8 /\ L2(i) < 4000 /\ L2(i) > 120) =>
                  LET n == Max2(1, Sq(u) \div 100)
                      o == << ((u[1]*u[1] - u[2]*u[2]) * 100) \div n, (2*u[1]*u[2] * 50) \div (n \div 2) >>
                      g == Max2(1, Gcd(z.a - z.c, 2*z.b))  w == << (z.a - z.c) \div g, (2*z.b) \div g >>
                  IN Mx(w[1], w[2]) > 40000 \/ (Abs(o[1]*w[2] - o[2]*w[1]) <= 100 * k * (Abs(w[1]) + Abs(w[2])) /\ o[1]*Sgn(w[1]) >= -100*k /\ o[2]*Sgn(w[2]) >= -100*k)
Obs(st, e) ==
  LET a == e.a
      Z(i) == st.e[i]
  IN CASE e.op = "obs" -> LET z == Z(a[1]) IN
            /\ e.ty = "Ellipse" /\ e.sz = 1
            /\ Judge(st, z) =>
               /\ ~e.cenT /\ ~e.mmT /\ ~e.angT /\ ~e.areaT /\ ~e.lenT /\ ~e.bbT /\ ~e.axT
               /\ CenOk(st, z, e.cen) /\ MajMinOk(st, z, e.mm) /\ DirOk(st, z, e.ang)
               /\ (~Loose(st, z) => ~e.obbT /\ ObbOk(st, z, e.obb, e.mm))
               \* area / pi at 100: the product of the semi-axes
               /\ LET p == ((e.mm[1] \div 10) * (e.mm[2] \div 10)) \div 100 IN Near(e.area, p, K(st, z, 4 + (e.mm[1] + e.mm[2]) \div 1000))
               /\ Near(e.len, LenEll(e.mm), K(st, z, 20 + e.len \div 200))
               /\ LET w == e.bb IN
                  /\ Near(w[1] + w[3], 2*Fx(z.x, z.w), K(st, z, 8)) /\ Near(w[2] + w[4], 2*Fx(z.y, z.w), K(st, z, 8))
                  /\ RootOk(st, z, (w[3] - w[1]) \div 20, z.a, z.d) /\ RootOk(st, z, (w[4] - w[2]) \div 20, z.c, z.d)
               /\ \A i \in 1..2 : Abs(e.ax[i][3]) <= K(st, z, 4)               \* both axis lines go through the centre
               /\ DirOk(st, z, e.ax[1]) /\ Near(e.ax[2][1], -e.ax[1][1], K(st, z, 8)) /\ Near(e.ax[2][2], -e.ax[1][2], K(st, z, 8))
            /\ (Known(z) /\ ~Loose(st, z)) => (IF Circ(z) THEN (e.ic \/ z.q > 0) ELSE ~e.ic)
            /\ (Known(z) /\ Circ(z)) => e.icl                                   \* with a large threshold
       [] e.op = "pin" -> LET z == Z(a[1]) s == IF Known(z) THEN Side(z, a[2], a[3], a[4]) ELSE 9 IN
            \/ ~Judge(st, z) \/ s \in {9, 0} \/ (Loose(st, z) /\ ~ClearSide(z, a[2], a[3], a[4]))
            \/ e.v = (s < 0) /\ e.v2 = (s < 0) /\ e.v3 = (s < 0)
       [] e.op = "pim" -> LET z == Z(a[1]) h == Hm(e, 5)  s == IF Known(z) THEN Side(z, a[2], a[3], a[4]) ELSE 9
                              w == h[7]*a[2] + h[8]*a[3] + h[9]*a[4]
                              t == ImgT(z, h) IN
            \* membership is preserved by a homography whose vanishing line does not meet the ellipse
            \/ ~Judge(st, z) \/ st.f \/ z.lo \/ s \in {9, 0} \/ w = 0 \/ t = <<>> \/ ~Known(Img(z, h))
            \/ e.v = (s < 0)
       [] e.op = "sca" -> LET z == Z(a[1]) IN        \* scaled up or down by a power of ten, read back in the original unit
            Judge(st, z) => ~e.cenT /\ ~e.mmT /\ CenOk(st, z, e.cen) /\ MajMinOk(st, z, e.mm)
       [] e.op = "eq" -> LET z == Z(a[1]) y == Z(a[2]) IN
            /\ e.q = ~e.ne /\ e.q = e.q2
            /\ (a[1] = a[2] => e.q)
            /\ (Known(z) /\ Known(y)) =>
                 /\ (z.id = y.id => e.q)
                 /\ ([ z EXCEPT !.q = 0, !.lo = FALSE, !.id = 0 ] # [ y EXCEPT !.q = 0, !.lo = FALSE, !.id = 0 ] => ~e.q)
       [] OTHER -> FALSE
Accepts(st, e) ==
  IF e.op = "begin" THEN TRUE
  ELSE IF e.op \in Writers THEN e.r = "ok" \/ ~Known(Out(st, e))
  \* nothing is known of an image that is no ellipse, or that has numbers too large to be followed
  ELSE IF e.r # "ok" THEN e.op \in {"pin","pim","obs"} /\ (~Known(st.e[e.a[1]]) \/ (e.op = "pim" /\ ~Known(Img(st.e[e.a[1]], Hm(e, 5)))))
  ELSE Obs(st, e)
Apply(st, e) ==
  IF e.op = "begin" THEN [ InitSt EXCEPT !.f = e.f ]
  ELSE IF e.op \notin Writers \/ e.r # "ok" THEN st
  ELSE LET w == Out(st, e)
       IN [ st EXCEPT !.e[e.a[1]] = IF Known(w) THEN [ w EXCEPT !.id = IF e.op = "cp" THEN (IF e.a[3] = 3 THEN st.n + 1 ELSE w.id) ELSE st.n + 1 ] ELSE w,
                      !.n = @ + 1 ]
=============================================================================
