-------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* Points, lines, segments and oriented segments, each in slots.             *)
(* A point or line is a reduced integer triple (homogeneous coordinates),    *)
(* normalized in sign: for a line the first of (a,b) that is not null is     *)
(* positive, for a point w > 0, or w = 0 and the first non-null of (x,y) is  *)
(* positive.  A slot is [t, q]: q counts the rounding steps since given      *)
(* integers.  A slot whose numbers grow too large, or whose value depends on *)
(* rounding, is "lost" (null triple): nothing is claimed about it until it   *)
(* is written again.                                                         *)
(***************************************************************************)
EXTENDS Geom
Big == 3000
P0 == [ t |-> <<0,0,1>>, q |-> 0 ]
L0 == [ t |-> <<1,0,0>>, q |-> 0 ]
Lost == [ t |-> <<0,0,0>>, q |-> 99 ]
Slots == 1..4
Seg0 == [ a |-> P0, b |-> [ t |-> <<1,1,1>>, q |-> 0 ] ]
InitSt == [ p |-> [ i \in Slots |-> P0 ], l |-> [ i \in Slots |-> L0 ],
            s |-> [ i \in Slots |-> Seg0 ], o |-> [ i \in Slots |-> Seg0 ], f |-> FALSE ]

Max3(t) == Max2(Abs(t[1]), Max2(Abs(t[2]), Abs(t[3])))
Red3(t) == LET g == Gcd(Gcd(t[1], t[2]), t[3]) IN IF g = 0 THEN t ELSE << t[1] \div g, t[2] \div g, t[3] \div g >>
Neg3(t) == << -t[1], -t[2], -t[3] >>
Mk(t, q) == IF Max3(Red3(t)) > Big THEN Lost ELSE [ t |-> t, q |-> q ]
MkP(t0, q) == LET t == Red3(t0)
                  neg == t[3] < 0 \/ (t[3] = 0 /\ (t[1] < 0 \/ (t[1] = 0 /\ t[2] < 0)))
              IN Mk(IF neg THEN Neg3(t) ELSE t, q)
MkL(t0, q) == LET t == Red3(t0)
                  neg == t[1] < 0 \/ (t[1] = 0 /\ t[2] < 0)
              IN Mk(IF neg THEN Neg3(t) ELSE t, q)
Known(z) == z.t # <<0,0,0>>
MaxQ(st) == IF st.f THEN 2 ELSE 12
Ok(st, z) == Known(z) /\ z.q <= MaxQ(st)
Inf(z) == z.t[3] = 0
Up(x, y) == Max2(x.q, y.q) + 1
Cross3(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
N2(l) == l.t[1]*l.t[1] + l.t[2]*l.t[2]
\* reduced direction; <<0,0>> when null or too large to be judged
Red2(u) == LET g == Gcd(u[1], u[2]) IN IF g = 0 THEN u ELSE << u[1] \div g, u[2] \div g >>
DirL(l) == LET u == Red2(<<-l.t[2], l.t[1]>>) IN u
DirS(g) == Red2(<< g.b.t[1]*g.a.t[3] - g.a.t[1]*g.b.t[3], g.b.t[2]*g.a.t[3] - g.a.t[2]*g.b.t[3] >>)
Small2(u, m) == Abs(u[1]) <= m /\ Abs(u[2]) <= m
Par2(u, v) == CrossV(u, v) = 0
\* far from the angle below which lines count as parallel
Clear2(u, v) == Small2(u, 1400) /\ Small2(v, 1400) /\ Abs(CrossV(u,v)) * 100 > Abs(DotV(u,v))
\* good conditions for the float type
Well2(st, u, v) == ~st.f \/ Abs(CrossV(u,v)) * 4 > Abs(DotV(u,v))
SmallL(l) == Small2(<<l.t[1],l.t[2]>>, 1400)

SameP(x, y) == x.t = y.t
LessP(x, y) == LET c == Sgn(x.t[1]*y.t[3] - y.t[1]*x.t[3]) IN c < 0 \/ (c = 0 /\ x.t[2]*y.t[3] < y.t[2]*x.t[3])
EqX(x, y) == x.t[1]*y.t[3] = y.t[1]*x.t[3]
Pow2(d) == d \in {1,2,4,8,16,32,64,128,256,512,1024,2048}
\* a plain segment from two distinct finite points: ordered; unknown when rounding decides
MkSeg(k, x, y) ==
  IF ~Known(x) \/ ~Known(y) \/ Inf(x) \/ Inf(y) THEN [ a |-> Lost, b |-> Lost ]
  ELSE IF k = 1 THEN [ a |-> x, b |-> y ]
  ELSE IF EqX(x, y) /\ ~(x.q = 0 /\ Pow2(x.t[3]) /\ y.q = 0 /\ Pow2(y.t[3])) THEN [ a |-> Lost, b |-> Lost ]
  ELSE IF LessP(y, x) THEN [ a |-> y, b |-> x ] ELSE [ a |-> x, b |-> y ]
KnownS(g) == Known(g.a) /\ Known(g.b)
OkS(st, g) == Ok(st, g.a) /\ Ok(st, g.b)
SlotS(st, k, i) == IF k = 0 THEN st.s[i] ELSE st.o[i]
PutS(st, k, i, g) == IF k = 0 THEN [ st EXCEPT !.s[i] = g ] ELSE [ st EXCEPT !.o[i] = g ]
Ex(x) == x.q = 0 /\ Pow2(x.t[3])          \* no rounding can have occurred
Shift(z, dx, dy) == IF ~Known(z) \/ Inf(z) THEN Lost ELSE MkP(<< z.t[1] + dx*z.t[3], z.t[2] + dy*z.t[3], z.t[3] >>, IF Pow2(z.t[3]) THEN z.q ELSE z.q + 1)
\* x + y - z
Para(x, y, z) == IF ~Known(x) \/ ~Known(y) \/ ~Known(z) \/ Inf(x) \/ Inf(y) \/ Inf(z) THEN Lost
                 ELSE IF x.t[3] > 60 \/ y.t[3] > 60 \/ z.t[3] > 60 THEN Lost
                 ELSE LET c(i) == x.t[i]*y.t[3]*z.t[3] + y.t[i]*x.t[3]*z.t[3] - z.t[i]*x.t[3]*y.t[3]
                      IN MkP(<< c(1), c(2), x.t[3]*y.t[3]*z.t[3] >>, IF Ex(x) /\ Ex(y) /\ Ex(z) THEN 0 ELSE Max2(x.q, Up(y, z)))
Mid(x, y) == IF ~Known(x) \/ ~Known(y) \/ Inf(x) \/ Inf(y) THEN Lost
             ELSE MkP(<< x.t[1]*y.t[3] + y.t[1]*x.t[3], x.t[2]*y.t[3] + y.t[2]*x.t[3], 2*x.t[3]*y.t[3] >>, IF Ex(x) /\ Ex(y) THEN 0 ELSE Up(x, y))
LineS(g) == IF KnownS(g) THEN MkL(Cross3(g.a.t, g.b.t), Up(g.a, g.b)) ELSE Lost
On(x, l) == Dot3(x.t, l.t) = 0

\* angles with rational cosine and sine
Ang5 == << <<3,4>>, <<4,3>>, <<-3,4>>, <<-4,3>>, <<3,-4>>, <<4,-3>>, <<-3,-4>>, <<-4,-3>> >>
CosSin(k) == CASE k = 0 -> <<1,0,1>> [] k = 1 -> <<0,1,1>> [] k = 2 -> <<-1,0,1>> [] k = 3 -> <<0,-1,1>>
               [] OTHER -> << Ang5[k-3][1], Ang5[k-3][2], 5 >>

(*--------------------------- lines from things ---------------------------*)
LineThrough(x, y) == MkL(Cross3(x.t, y.t), Up(x, y))
ParLine(l, x) == MkL(<< l.t[1]*x.t[3], l.t[2]*x.t[3], -(l.t[1]*x.t[1] + l.t[2]*x.t[2]) >>, Up(l, x))
OrtLine(l, x) == MkL(<< -l.t[2]*x.t[3], l.t[1]*x.t[3], l.t[2]*x.t[1] - l.t[1]*x.t[2] >>, Up(l, x))
RotLine(l, x, k) == LET c == CosSin(k)
                        a == c[1]*l.t[1] - c[2]*l.t[2]  b == c[2]*l.t[1] + c[1]*l.t[2]
                    IN IF ~Small2(<<a,b>>, 100000) THEN Lost ELSE ParLine([ t |-> MkL(<<a,b,0>>, 0).t, q |-> l.q ], x)
\* point of the line with a given coordinate (gc 0: x given); w = 0: does not exist
CoordPt(l, gc, v) == IF gc = 0 THEN << v*l.t[2], -(l.t[1]*v) - l.t[3], l.t[2] >> ELSE << -(l.t[2]*v) - l.t[3], v*l.t[1], l.t[1] >>

\* the outcome of a writing call: [w: new value, t: must throw, o: whether it throws is open]
R(w) == [ w |-> w, t |-> FALSE, o |-> FALSE ]
Refuse == [ w |-> Lost, t |-> TRUE, o |-> FALSE ]
Open == [ w |-> Lost, t |-> FALSE, o |-> TRUE ]
OpenS == [ w |-> [ a |-> Lost, b |-> Lost ], t |-> FALSE, o |-> TRUE ]

FromPP(x, y) == IF ~Known(x) \/ ~Known(y) THEN Open
                ELSE IF SameP(x, y) THEN (IF x.q + y.q > 0 THEN Open ELSE Refuse)      \* up to rounding: undecided
                ELSE IF Inf(x) /\ Inf(y) THEN Refuse ELSE R(LineThrough(x, y))
FromLL(st, l, m) == IF ~Known(l) \/ ~Known(m) THEN Open
                ELSE IF Par2(DirL(l), DirL(m)) THEN Refuse
                ELSE IF ~Clear2(DirL(l), DirL(m)) THEN Open
                ELSE IF ~Well2(st, DirL(l), DirL(m)) THEN R(Lost)
                ELSE R(MkP(Cross3(l.t, m.t), Up(l, m)))
Seg2(k, x, y) == IF ~Known(x) \/ ~Known(y) \/ Inf(x) \/ Inf(y) THEN OpenS
                 ELSE IF SameP(x, y) THEN (IF x.q + y.q > 0 THEN OpenS ELSE Refuse)
                 ELSE R(MkSeg(k, x, y))
\* third point of a line through integer points, ...
Out(st, e) ==
  LET a == e.a
      P(i) == st.p[i]  L(i) == st.l[i]
  IN CASE e.op = "pt" -> IF a[2] < 2 THEN R(MkP(<<a[3],a[4],1>>, 0))
                         ELSE IF <<a[3],a[4],a[5]>> = <<0,0,0>> THEN Refuse
                         ELSE R(MkP(<<a[3],a[4],a[5]>>, IF Pow2(Abs(a[5])) \/ a[5] = 0 THEN 0 ELSE 1))
       [] e.op = "pcp" -> R(P(a[3]))
       [] e.op = "pll" -> FromLL(st, L(a[3]), L(a[4]))
       [] e.op = "ptr" -> IF Inf(P(a[1])) THEN Open ELSE R(Shift(P(a[1]), a[3], a[4]))
       [] e.op = "pmv" -> R(P(a[2]))
       [] e.op = "pgc" -> LET l == L(a[2]) IN
            IF ~Known(l) \/ ~SmallL(l) THEN Open
            ELSE IF CoordPt(l, a[3], a[4])[3] = 0 THEN Refuse
            ELSE IF st.f /\ Abs(CoordPt(l, a[3], a[4])[3]) * 4 < Max2(Abs(l.t[1]), Abs(l.t[2])) THEN R(Lost)
            ELSE R(MkP(CoordPt(l, a[3], a[4]), l.q + 1))
       [] e.op = "pce" -> LET g == SlotS(st, a[2], a[3]) IN R(Mid(g.a, g.b))
       [] e.op = "pen" -> LET g == SlotS(st, a[2], a[3]) IN R(IF a[4] = 0 THEN g.a ELSE g.b)
       [] e.op = "lpp" -> IF a[2] = 2 /\ (~Known(P(a[3])) \/ ~Known(P(a[4])) \/ Inf(P(a[3])) \/ Inf(P(a[4]))) THEN Open
                          ELSE FromPP(P(a[3]), P(a[4]))
       [] e.op = "lab" -> IF a[2] <= 3 THEN (IF a[3] = 0 /\ a[4] = 0 THEN Refuse ELSE R(MkL(<<a[3],a[4],a[5]>>, 1)))
                          ELSE IF a[2] = 4 THEN R(MkL(<<1,0,-a[3]>>, 0))
                          ELSE IF a[2] = 5 THEN R(MkL(<<0,1,-a[3]>>, 0))
                          ELSE IF a[2] \in {6,7}
                          THEN LET x == P(((a[3] % 4)) + 1) IN
                               IF ~Known(x) \/ Inf(x) THEN Open
                               ELSE R(IF a[2] = 6 THEN MkL(<<x.t[3],0,-x.t[1]>>, x.q+1) ELSE MkL(<<0,x.t[3],-x.t[2]>>, x.q+1))
                          ELSE IF a[2] = 8
                          THEN LET x == P(((a[3] % 4)) + 1) IN
                               IF ~Known(x) \/ (x.t[1] = 0 /\ x.t[2] = 0 /\ x.q > 0) THEN Open
                               ELSE IF x.t[1] = 0 /\ x.t[2] = 0 THEN Refuse ELSE R(MkL(<<x.t[2], -x.t[1], 0>>, x.q+1))
                          ELSE IF a[2] = 9 THEN (IF a[3] = 0 /\ a[4] = 0 THEN Refuse ELSE R(MkL(<<a[4],-a[3],0>>, 1)))
                          ELSE R(L0)
       [] e.op = "lcp" -> R(L(a[3]))
       [] e.op = "ltr" -> R(L(a[1]))           \* translating a line is documented to do nothing
       [] e.op = "lpar" -> IF ~Known(L(a[2])) \/ ~Known(P(a[3])) \/ Inf(P(a[3])) THEN Open ELSE R(ParLine(L(a[2]), P(a[3])))
       [] e.op = "lort" -> IF ~Known(L(a[2])) \/ ~Known(P(a[3])) \/ Inf(P(a[3])) THEN Open ELSE R(OrtLine(L(a[2]), P(a[3])))
       [] e.op = "lorc" -> LET l == L(a[2]) IN
            IF ~Known(l) \/ ~SmallL(l) THEN Open
            ELSE LET t == CoordPt(l, a[3], a[4]) IN
                 IF t[3] = 0 THEN Refuse
                 ELSE IF st.f /\ Abs(t[3]) * 4 < Max2(Abs(l.t[1]), Abs(l.t[2])) THEN R(Lost)
                 ELSE LET x == MkP(t, l.q+1) IN R(IF Known(x) THEN OrtLine(l, x) ELSE Lost)
       [] e.op = "lrot" -> LET l == L(a[2]) x == P(a[3]) IN
            IF ~Known(l) \/ ~Known(x) \/ Inf(x) THEN Open
            ELSE IF ~On(x, l) THEN Refuse
            ELSE IF st.f THEN Open ELSE R(RotLine(l, x, a[4]))
       [] e.op = "lbi" -> LET g == SlotS(st, a[2], a[3]) m == Mid(g.a, g.b) l == LineS(g) IN
            IF ~Known(m) \/ ~Known(l) THEN R(Lost) ELSE R(OrtLine(l, m))
       [] e.op = "lse" -> R(LineS(SlotS(st, a[2], a[3])))
       [] e.op = "sg" -> LET x == P(a[4]) y == P(a[5]) IN Seg2(a[1], x, y)
       [] e.op = "scv" -> LET g == st.o[a[2]] IN R(MkSeg(0, g.a, g.b))
       [] e.op = "srv" -> LET g == st.o[a[2]] IN R([ a |-> g.b, b |-> g.a ])
       [] e.op = "scp" -> R(SlotS(st, a[1], a[3]))
       [] e.op = "stl" -> LET g == SlotS(st, a[1], a[2]) IN R(MkSeg(a[1], Shift(g.a, a[4], a[5]), Shift(g.b, a[4], a[5])))
       [] e.op = "smv" -> LET g == SlotS(st, a[1], a[2])  x == MkP(<<a[4],a[5],1>>, 0)
                          IN R(MkSeg(a[1], x, Para(x, g.b, g.a)))
       [] e.op = "smp" -> LET g == SlotS(st, a[1], a[2])  x == P(a[3])
                          IN R(MkSeg(a[1], x, Para(x, g.b, g.a)))
       [] e.op = "ssp" -> LET g == SlotS(st, a[1], a[3])  m == Mid(g.a, g.b)
                          IN R(IF a[4] = 0 THEN MkSeg(a[1], g.a, m) ELSE MkSeg(a[1], m, g.b))
       [] e.op = "sex" -> LET g == SlotS(st, a[1], a[3])
                          IN R(MkSeg(a[1], Para(g.a, g.a, g.b), Para(g.b, g.b, g.a)))
       [] OTHER -> R(P0)
PtOps == {"pt","pcp","pll","ptr","pmv","pgc","pce","pen"}
LineOps == {"lpp","lab","lcp","ltr","lpar","lort","lorc","lrot","lbi","lse"}
SegOps == {"sg","scp","stl","smv","smp","ssp","sex"}      \* a[1] is the kind, a[2] the slot
Writers == PtOps \cup LineOps \cup SegOps \cup {"scv","srv"}

(*----------------------------- observations ------------------------------*)
Tol(st, z) == (IF st.f THEN 6 ELSE 3) + Max2(Abs(z.t[1]), Abs(z.t[2])) \div (Max2(1, z.t[3]) * (IF st.f THEN 50 ELSE 100000))
PtZ(st, q, z) == ~Ok(st, z) \/ Inf(z) \/
                 LET k == Tol(st, z) IN Near(q[1], Fx(z.t[1], z.t[3]), k) /\ Near(q[2], Fx(z.t[2], z.t[3]), k)
\* a line <<a,b,c>>: a and b at S, c at 1000
LineZ(st, o, z) == ~Ok(st, z) \/
  LET t == z.t
      d == IF st.f THEN 5 ELSE 2
  IN /\ Abs(o[1]) <= 10005 /\ Abs(o[2]) <= 10005
     /\ Abs(o[1]*o[1] + o[2]*o[2] - 100000000) <= 60000
     /\ Abs(o[1]*t[2] - o[2]*t[1]) <= d * (Abs(t[1]) + Abs(t[2]))
     /\ (IF t[1] # 0 THEN o[1] >= 0 ELSE o[2] > 0)
     /\ (Abs(o[1]) > 20 => o[1]*t[1] >= 0) /\ (Abs(o[2]) > 20 => o[2]*t[2] >= 0)
     /\ (Abs(t[3]) \div Max2(Abs(t[1]), Abs(t[2])) < 400 /\ SmallL(z)) =>
          /\ Abs(o[3]) <= 600000
          /\ LET j == IF Abs(t[1]) >= Abs(t[2]) THEN 1 ELSE 2
             IN Abs(o[3]*t[j] - (o[j]*t[3]) \div 10) <= d * (Abs(t[j]) + Abs(t[3]) \div 10 + 2)
SegZ(st, o, g) == PtZ(st, o[1], g.a) /\ PtZ(st, o[2], g.b)
AxisL(l) == l.t[1] = 0 \/ l.t[2] = 0
Exact(z) == z.q = 0

\* distance (scale 1000) between point and line, coarse
DistOk(st, v, x, l) ==
  LET num == Abs(Dot3(x.t, l.t))
  IN IF num = 0 THEN Abs(v) <= (IF st.f THEN 2 ELSE 0)
     ELSE /\ v > 0 \/ num < x.t[3]
          /\ (num <= 200000 /\ N2(l) <= 200000) =>
             LET n == ISqrt(N2(l) * 10000)
                 w == (((num * 1000) \div x.t[3]) * 10) \div (Max2(1, n \div 10))
             IN (num * 1000) \div x.t[3] > 20000000 \/ Near(v, w, 3 + (w \div 40))
SqLen(u) == u[1]*u[1] + u[2]*u[2]

\* cosine/sine (scale S) of the angle between directions; unsigned: between lines
AngOk(ca, sa, u, v, signed) ==
  LET c == CrossV(u,v)  d == DotV(u,v) IN
  (Small2(u, 90) /\ Small2(v, 90)) =>
    /\ Abs(ca*ca + sa*sa - 100000000) <= 60000
    /\ (IF signed THEN Abs(ca*c - sa*d) ELSE Abs(ca*Abs(c) - sa*Abs(d))) <= 3 * (Abs(c) + Abs(d))
    /\ IF signed THEN (Abs(ca) > 20 => ca*Sgn(d) > 0) /\ (Abs(sa) > 20 => sa*Sgn(c) > 0) ELSE ca >= -2 /\ sa >= -2
DirOf(st, k, i) == CASE k = 0 -> DirL(st.l[i]) [] k = 1 -> DirS(st.s[i]) [] OTHER -> DirS(st.o[i])
OkOf(st, k, i) == CASE k = 0 -> Ok(st, st.l[i]) [] k = 1 -> OkS(st, st.s[i]) [] OTHER -> OkS(st, st.o[i])

\* fixed point vectors (scale S) reduced to 1/1000 so that squares fit: components up to 30000
V3(q, z) == << (q[1] - Fx(z.t[1], z.t[3])) \div 10, (q[2] - Fx(z.t[2], z.t[3])) \div 10 >>
V3q(q, r) == << (q[1] - r[1]) \div 10, (q[2] - r[2]) \div 10 >>
\* the vector (in 1/1000) has length d (an integer) and is orthogonal / along the reduced direction u
HasLen(v, d) == Abs(v[1]) <= 32000 /\ Abs(v[2]) <= 32000 /\ LET n == ISqrt(SqLen(v)) IN Near(n, 1000*d, 6)
AlongD(v, u) == Abs(v[1]*u[2] - v[2]*u[1]) <= 6 * (Abs(u[1]) + Abs(u[2]))
OrthoD(v, u) == Abs(v[1]*u[1] + v[2]*u[2]) <= 6 * (Abs(u[1]) + Abs(u[2]))
LessQ(a, b) == a[1] < b[1] + 3 /\ (a[1] < b[1] - 3 \/ a[2] < b[2] + 3)
Sane(q, z) == Abs(q[1]) < 30000000 /\ Abs(q[2]) < 30000000

Obs(st, e) ==
  LET a == e.a
      P(i) == st.p[i]  L(i) == st.l[i]
  IN CASE e.op = "po" -> LET x == P(a[1]) IN
            /\ e.sz = 1
            /\ (Known(x) => e.inf = Inf(x))
            /\ (Known(x) /\ ~Inf(x)) => PtZ(st, e.v, x) /\ e.len = 0 /\ e.ar = 0
       [] e.op = "lo" -> LET l == L(a[1]) IN e.sz = 0 /\ e.lenT /\ ~e.inf /\ e.ar = 0 /\ LineZ(st, e.v, l)
       [] e.op = "eqp" -> LET x == P(a[1]) y == P(a[2]) IN
            \/ ~Ok(st, x) \/ ~Ok(st, y) \/ Inf(x) \/ Inf(y)
            \/ /\ e.q = ~e.ne
               /\ (IF SameP(x,y) THEN (e.q \/ (st.f /\ ~(Exact(x) /\ Exact(y)))) ELSE ~e.q)
               /\ ~(e.lt /\ e.gt)
               /\ (~SameP(x,y) /\ (~EqX(x,y) \/ (Exact(x) /\ Exact(y))) => (e.lt = LessP(x,y) /\ e.gt = LessP(y,x)))
       [] e.op = "eql" -> LET l == L(a[1]) m == L(a[2]) u == DirL(l) v == DirL(m) IN
            \/ ~Ok(st, l) \/ ~Ok(st, m)
            \/ /\ e.q = ~e.ne
               /\ (Par2(u,v) => e.par /\ e.par2 /\ e.q = e.q2)
               /\ (Clear2(u,v) => ~e.par /\ ~e.par2)
               /\ (IF l.t = m.t THEN (e.q \/ (st.f /\ ~AxisL(l))) ELSE (Par2(u,v) \/ Clear2(u,v)) => ~e.q)
               /\ (IF Par2(u,v) THEN ~e.pdT /\ (SmallL(l) /\ SmallL(m) =>
                        \* distance between the parallels: that of a point of the second to the first
                        LET x == IF m.t[1] # 0 THEN MkP(<<-m.t[3],0,m.t[1]>>,0) ELSE MkP(<<0,-m.t[3],m.t[2]>>,0)
                        IN ~Known(x) \/ x.t[3] > 100 \/ DistOk(st, e.pd, x, l))
                   ELSE Clear2(u,v) => e.pdT)
       [] e.op = "inc" -> LET x == P(a[1]) l == L(a[2]) IN
            \/ ~Ok(st, x) \/ ~Ok(st, l) \/ Inf(x)
            \/ /\ DistOk(st, e.d, x, l) /\ e.d = e.d2
               /\ (IF On(x, l) THEN (e.sd = 0 \/ st.f) ELSE (e.sd = Sgn(Dot3(x.t, l.t))))
       [] e.op = "pd" -> LET x == P(a[1]) y == P(a[2]) IN
            \/ ~Ok(st, x) \/ ~Ok(st, y) \/ Inf(x) \/ Inf(y) \/ x.t[3] # 1 \/ y.t[3] # 1
            \/ e.d = e.d2 /\ (Abs(x.t[1]-y.t[1]) + Abs(x.t[2]-y.t[2]) <= 200 => LenOk(e.d, D2(x.t, y.t)))
       [] e.op = "col" -> LET x == P(a[1]) y == P(a[2]) z == P(a[3]) IN
            \/ ~Ok(st, x) \/ ~Ok(st, y) \/ ~Ok(st, z) \/ Inf(x) \/ Inf(y) \/ Inf(z)
            \/ x.t[3] > 20 \/ y.t[3] > 20 \/ z.t[3] > 20 \/ Max3(x.t) > 1000 \/ Max3(y.t) > 1000 \/ Max3(z.t) > 1000
            \/ LET d == x.t[1]*(y.t[2]*z.t[3]-z.t[2]*y.t[3]) - x.t[2]*(y.t[1]*z.t[3]-z.t[1]*y.t[3]) + x.t[3]*(y.t[1]*z.t[2]-z.t[1]*y.t[2])
               IN IF d = 0 THEN (e.v \/ st.f) ELSE ~e.v
       [] e.op = "ang" -> LET u == DirOf(st, a[1], a[2])  v == DirOf(st, a[3], a[4])
                              lines == a[1] # 2 \/ a[3] # 2 IN
            \/ ~OkOf(st, a[1], a[2]) \/ ~OkOf(st, a[3], a[4])
            \/ /\ ~e.cT
               /\ AngOk(e.c, e.s, u, v, ~lines)
               /\ (IF lines THEN e.v >= 0 /\ e.v <= 15709 ELSE e.v >= -31416 /\ e.v <= 31416)
               /\ (e.k2 => AngOk(e.c2, e.s2, v, u, ~lines))
               /\ (e.k3 => (Par2(u,v) => e.par) /\ (Clear2(u,v) => ~e.par))
       [] e.op = "lpls" -> LET l == L(a[1]) IN
            \/ ~Ok(st, l) \/ Max3(l.t) > 1000
            \/ /\ LineZ(st, e.l0, l)
               /\ \A k \in {1,2} : LET o == IF k = 1 THEN e.l1 ELSE e.l2 IN Near(o[1], e.l0[1], 1) /\ Near(o[2], e.l0[2], 1)
               /\ {Sgn(e.l1[3]-e.l0[3]), Sgn(e.l2[3]-e.l0[3])} = (IF a[2] = 0 THEN {0} ELSE {-1,1})
               /\ Near(Abs(e.l1[3]-e.l0[3]), 1000*Abs(a[2]), 3) /\ Near(Abs(e.l2[3]-e.l0[3]), 1000*Abs(a[2]), 3)
       [] e.op = "lgp" -> LET l == L(a[1]) x == P(a[2]) u == DirL(l) IN
            \/ ~Ok(st, l) \/ ~Ok(st, x) \/ Inf(x) \/ (st.f /\ ~(AxisL(l) /\ Exact(x)))
            \/ IF ~On(x, l) THEN e.vT
               ELSE \/ ~Small2(u, 1000)
                    \/ Abs(x.t[1] \div x.t[3]) > 1000 \/ Abs(x.t[2] \div x.t[3]) > 1000
                    \/ /\ ~e.vT
                       /\ \A k \in {1,2} : Sane(e.v[k], x) /\ HasLen(V3(e.v[k], x), a[3]) /\ AlongD(V3(e.v[k], x), u)
                       /\ Near(e.v[1][1] + e.v[2][1], 2*Fx(x.t[1],x.t[3]), 8) /\ Near(e.v[1][2] + e.v[2][2], 2*Fx(x.t[2],x.t[3]), 8)
                       \* the smaller point comes first; rounding decides on a computed vertical line
                       /\ (Exact(l) \/ l.t[2] # 0) => LessQ(e.v[1], e.v[2])
       [] e.op = "lgc" -> LET l == L(a[1]) t == CoordPt(l, a[2], a[3]) IN
            \/ ~Ok(st, l) \/ ~SmallL(l)
            \/ (st.f /\ t[3] # 0 /\ Abs(t[3]) * 4 < Max2(Abs(l.t[1]), Abs(l.t[2])))
            \/ IF t[3] = 0 THEN e.vT /\ e.ptT /\ e.ppT
               ELSE LET x == MkP(t, l.q + 1) IN
                    \/ ~Ok(st, x)
                    \/ /\ ~e.vT /\ ~e.ptT /\ ~e.ppT
                       /\ PtZ(st, e.pt, x) /\ PtZ(st, IF a[2] = 0 THEN << a[3]*S, e.v >> ELSE << e.v, a[3]*S >>, x)
                       /\ (Small2(DirL(l), 1000) /\ Max3(<<e.pt[1],e.pt[2],0>>) < 10000000) =>
                            \A k \in {1,2} : Sane(e.pp[k], x) /\ HasLen(V3(e.pp[k], x), a[4]) /\ AlongD(V3(e.pp[k], x), DirL(l))
       [] e.op = "los" -> LET l == L(a[1]) x == P(a[2])  num == Dot3(x.t, l.t)  n2 == N2(l) IN
            \/ ~Ok(st, l) \/ ~Ok(st, x) \/ Inf(x)
            \/ IF num = 0 THEN (e.vT \/ st.f)
               ELSE /\ ~e.vT
                    /\ PtZ(st, e.v[2], x)
                    /\ \/ n2 * x.t[3] > 20000 \/ Abs(num) > 40000 \/ Max3(x.t) * n2 > 1000000 \/ Abs(num) * Max2(Abs(l.t[1]), Abs(l.t[2])) > 1000000
                       \/ LET t == << x.t[1]*n2 - num*l.t[1], x.t[2]*n2 - num*l.t[2], x.t[3]*n2 >>
                              k == (IF st.f THEN 10 ELSE 4)
                          IN Near(e.v[1][1], Fx(t[1], t[3]), k) /\ Near(e.v[1][2], Fx(t[2], t[3]), k)
       [] e.op = "so" -> LET g == SlotS(st, a[1], a[2]) IN
            /\ e.sz = 2 /\ e.ar = 0
            /\ (OkS(st, g) =>
                 /\ SegZ(st, e.v, g) /\ SegZ(st, e.v2, g)
                 /\ LET m == Mid(g.a, g.b) IN PtZ(st, e.ct, m) /\ PtZ(st, e.ct2, m)
                 /\ LineZ(st, e.li, LineS(g))
                 /\ LET v == V3q(e.v[2], e.v[1]) IN
                    (Abs(v[1]) <= 32000 /\ Abs(v[2]) <= 32000) => LET n == ISqrt(SqLen(v)) IN Near(e.len, n, 6)
                 /\ (a[1] = 1 => Near(e.vec[1], e.v[2][1] - e.v[1][1], 3) /\ Near(e.vec[2], e.v[2][2] - e.v[1][2], 3)))
       [] e.op = "seq" -> LET g == SlotS(st, a[1], a[2])  h == SlotS(st, a[1], a[3]) IN
            \/ ~OkS(st, g) \/ ~OkS(st, h)
            \/ /\ e.q = ~e.ne
               /\ LET same == SameP(g.a, h.a) /\ SameP(g.b, h.b) IN
                  IF same THEN (e.q \/ (st.f /\ Max2(Max2(g.a.q,g.b.q), Max2(h.a.q,h.b.q)) > 0)) ELSE ~e.q
               /\ ~(e.lt /\ e.gt)
               /\ (~SameP(g.a,h.a) /\ (~EqX(g.a,h.a) \/ (Exact(g.a) /\ Exact(h.a)))) => (e.lt = LessP(g.a,h.a) /\ e.gt = LessP(h.a,g.a))
       [] e.op = "sid" -> LET g == st.o[a[1]]  x == P(a[2]) IN
            \/ ~OkS(st, g) \/ ~Ok(st, x) \/ Inf(x)
            \/ LET l == Cross3(g.a.t, g.b.t)   \* positive on the left of a -> b (w > 0)
                   c == IF Max3(l) > 500000 THEN 0 ELSE Sgn(Dot3(l, x.t))
               IN \/ Max3(l) > 500000
                  \/ (c = 0 /\ ~(Exact(g.a) /\ Exact(g.b) /\ Exact(x)) /\ ~SameP(x, g.a) /\ ~SameP(x, g.b))       \* rounding
                  \/ (c = 0 /\ st.f /\ Max2(x.q, Max2(g.a.q, g.b.q)) > 0)
                  \/ e.v = (CASE c > 0 -> "Left" [] c < 0 -> "Right" [] OTHER -> "Neither")
       [] e.op = "gpa" -> LET g == st.o[a[1]] d == a[2] IN
            IF d < 0 THEN e.vT
            ELSE \/ ~OkS(st, g) \/ ~Small2(DirS(g), 1000) \/ Max3(g.a.t) > 1000 * g.a.t[3]
                 \/ /\ ~e.vT
                    /\ Sane(e.v, g.a) /\ HasLen(V3(e.v, g.a), d) /\ AlongD(V3(e.v, g.a), DirS(g))
                    /\ LET v == V3(e.v, g.a) u == DirS(g) IN v[1]*u[1] + v[2]*u[2] >= -6 * (Abs(u[1])+Abs(u[2]))
       [] e.op = "spd" -> LET g == st.o[a[1]] d == a[2]
                              w == << g.b.t[1]*g.a.t[3] - g.a.t[1]*g.b.t[3], g.b.t[2]*g.a.t[3] - g.a.t[2]*g.b.t[3] >>
                              den == g.a.t[3]*g.b.t[3] IN
            IF d <= 0 THEN e.vT
            ELSE \/ ~OkS(st, g) \/ ~Small2(w, 20000) \/ d > 100 \/ den > 100 \/ ~Small2(DirS(g), 1000)
                 \/ (Max2(g.a.q, g.b.q) > 0 /\ SqLen(w) = d*d*den*den)
                 \/ IF SqLen(w) <= d*d*den*den THEN e.vT
                    ELSE /\ ~e.vT
                         /\ PtZ(st, e.v[1][1], g.a) /\ PtZ(st, e.v[2][2], g.b)
                         /\ Near(e.v[1][2][1], e.v[2][1][1], 3) /\ Near(e.v[1][2][2], e.v[2][1][2], 3)
                         /\ Max3(g.a.t) < 1000 * g.a.t[3] =>
                              HasLen(V3(e.v[1][2], g.a), d) /\ AlongD(V3(e.v[1][2], g.a), DirS(g))
       [] e.op = "sop" -> LET g == SlotS(st, a[1], a[2])
                              z(c, s) == \* c + s * (dy, -dx)  with d = first - second
                                  LET x == g.a.t y == g.b.t  n == x[3]*y[3]
                                      dx == x[1]*y[3] - y[1]*x[3]  dy == x[2]*y[3] - y[2]*x[3]
                                  IN IF x[3] > 30 \/ y[3] > 30 THEN Lost
                                     ELSE MkP(<< c.t[1]*n + s*dy*c.t[3], c.t[2]*n - s*dx*c.t[3], n*c.t[3] >>, Up(g.a, g.b))
                              w == << z(g.a,-1), z(g.a,1), z(g.b,1), z(g.b,-1) >>
                          IN ~OkS(st, g) \/
                             (/\ Len(e.p) = 4 /\ Len(e.s) = 4
                              /\ \A i \in 1..4 : PtZ(st, e.p[i], w[i])
                              \* each segment joins the end point with the orthogonal point
                              /\ \A i \in 1..4 : LET c == IF i <= 2 THEN g.a ELSE g.b IN
                                   (Ok(st, w[i])) => \/ (PtZ(st, e.s[i][1], c) /\ PtZ(st, e.s[i][2], w[i]))
                                                     \/ (PtZ(st, e.s[i][2], c) /\ PtZ(st, e.s[i][1], w[i])))
       [] e.op = "sps" -> LET g == SlotS(st, a[1], a[2]) d == a[3] u == DirS(g) IN
            IF d <= 0 THEN e.vT
            ELSE \/ ~OkS(st, g) \/ ~Small2(u, 1000) \/ Max3(g.a.t) > 1000 * g.a.t[3] \/ Max3(g.b.t) > 1000 * g.b.t[3]
                 \/ /\ ~e.vT
                    /\ \A k \in {1,2} :
                         LET v == V3(e.v[k][1], g.a)  w == V3(e.v[k][2], g.b) IN
                         /\ Sane(e.v[k][1], g.a) /\ Sane(e.v[k][2], g.b)
                         /\ HasLen(v, d) /\ OrthoD(v, u) /\ HasLen(w, d) /\ OrthoD(w, u)
                         /\ Near(v[1], w[1], 3) /\ Near(v[2], w[2], 3)
                    /\ LET s1 == Sgn(CrossV(u, V3(e.v[1][1], g.a)))  s2 == Sgn(CrossV(u, V3(e.v[2][1], g.a)))
                       IN s1 * s2 = -1 /\ (a[1] = 1 => s1 = 1)
       [] e.op = "ctr" -> LET g1 == st.s[a[1]] g2 == st.s[a[2]] IN
            /\ PtZ(st, e.v[1], Mid(g1.a, g1.b)) /\ PtZ(st, e.v[2], Mid(g2.a, g2.b))
            /\ LineZ(st, e.l[1], LineS(g1)) /\ LineZ(st, e.l[2], LineS(g2))
       [] e.op = "tan" -> LET c1 == <<a[1],a[2]>> r1 == a[3] c2 == <<a[4],a[5]>> r2 == a[6]
                              same == c1 = c2 /\ r1 = r2
                              on(q, c, r) == HasLen(<< (q[1] - c[1]*S) \div 10, (q[2] - c[2]*S) \div 10 >>, r)
                              tang(p, q) == \* p on circle 1, q on circle 2, orthogonal to both radii, on the same side
                                LET v == << (q[1]-p[1]) \div 10, (q[2]-p[2]) \div 10 >>
                                    k1 == << (p[1] - c1[1]*S) \div 100, (p[2] - c1[2]*S) \div 100 >>
                                    k2 == << (q[1] - c2[1]*S) \div 100, (q[2] - c2[2]*S) \div 100 >>
                                IN /\ on(p, c1, r1) /\ on(q, c2, r2)
                                   /\ Abs(DotV(v, k1)) <= 40 * (Abs(v[1]) + Abs(v[2]) + 1000*r1)
                                   /\ Abs(DotV(v, k2)) <= 40 * (Abs(v[1]) + Abs(v[2]) + 1000*r2)
                                   /\ DotV(k1, k2) > 0
                          IN /\ IF c1 = c2 THEN e.scT /\ e.clT
                                ELSE /\ ~e.scT /\ ~e.clT
                                     /\ (PtOk(e.sc[1], c1) /\ PtOk(e.sc[2], c2)) \/ (PtOk(e.sc[1], c2) /\ PtOk(e.sc[2], c1))
                                     /\ LineZ(st, e.cl, LineS([ a |-> MkP(<<c1[1],c1[2],1>>, 0), b |-> MkP(<<c2[1],c2[2],1>>, 0) ]))
                             /\ IF same THEN e.vT
                                ELSE \/ D2(c1,c2) <= (r1-r2)*(r1-r2) + 1
                                     \/ /\ ~e.vT
                                        /\ \A k \in {1,2} : /\ \A i, j \in {1,2} : Abs(e.v[k][i][j]) < 2000000
                                                            /\ tang(e.v[k][1], e.v[k][2]) \/ tang(e.v[k][2], e.v[k][1])
                                        /\ \E i, j \in {1,2} : ~Near(e.v[1][i][j], e.v[2][i][j], 20)
       [] e.op = "bis" -> LET n == a[2]
                              w == [ i \in 1..n |-> << a[1+2*i], a[2+2*i] >> ]
                              closed == a[1] = 1
                              bad == n = 1 \/ \E i \in 1..n : w[i] = w[Nxt(i,n)]
                              ids == IF closed THEN [ i \in 1..n |-> i ] ELSE [ i \in 1..Max2(0,n-2) |-> i+1 ]
                              one(o, i) == LET x == w[i]  e1 == Sub(w[Prv(i,n)], x)  e2 == Sub(w[Nxt(i,n)], x)
                                               u == << -o[2] \div 10, o[1] \div 10 >>
                                               f1 == CrossV(e1, u)  f2 == CrossV(u, e2)
                                           IN \* passes through the vertex, and makes the same angle with both edges
                                              /\ Abs(o[1]*x[1] + o[2]*x[2] + o[3]*10) <= 30 + Abs(x[1]) + Abs(x[2])
                                              /\ LET n1 == ISqrt(SqLen(e1) * 10000)  n2 == ISqrt(SqLen(e2) * 10000)    \* 100 |e|
                                                 IN /\ Near((f1 * 100) \div n1, (f2 * 100) \div n2, 8)
                                                    /\ Near((DotV(u,e1) * 100) \div n1, (DotV(u,e2) * 100) \div n2, 8)
                          IN IF bad THEN e.r = "skip"
                             ELSE IF n < 3 THEN e.vT
                             ELSE \/ (\E i \in 1..Len(ids) : Reversal(w[Prv(ids[i],n)], w[ids[i]], w[Nxt(ids[i],n)]) /\ st.f)
                                  \/ (st.f /\ e.vT)
                                  \/ ~e.vT /\ Len(e.v) = Len(ids) /\ \A i \in 1..Len(ids) : one(e.v[i], ids[i])
       [] OTHER -> FALSE
Accepts(st, e) ==
  IF "r" \in DOMAIN e /\ e.r = "crash" THEN FALSE
  ELSE IF e.op = "begin" THEN TRUE
  ELSE IF e.r = "skip" THEN TRUE
  ELSE IF e.op \in Writers THEN LET o == Out(st, e) IN o.o \/ (e.r = "throw") = o.t
  ELSE e.r = "ok" /\ Obs(st, e)
Apply(st, e) ==
  IF e.op = "begin" THEN [ InitSt EXCEPT !.f = IF "f" \in DOMAIN e THEN e.f ELSE FALSE ]
  ELSE IF e.op \notin Writers \/ e.r # "ok" THEN st
  ELSE LET w == Out(st, e).w IN
       CASE e.op \in PtOps -> [ st EXCEPT !.p[e.a[1]] = w ]
         [] e.op \in LineOps -> [ st EXCEPT !.l[e.a[1]] = w ]
         [] e.op = "scv" -> [ st EXCEPT !.s[e.a[1]] = w ]
         [] e.op = "srv" -> [ st EXCEPT !.o[e.a[1]] = w ]
         [] OTHER -> PutS(st, e.a[1], e.a[2], w)
=============================================================================
