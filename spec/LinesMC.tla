------------------------------- MODULE LinesMC ------------------------------
(* Mode "enum": every list of four points of a small grid, checked against    *)
(* the laws of projective duality and of the segment operations, and emitted   *)
(* as a scenario of one family; Mode "sim": random histories over all slots.   *)
EXTENDS Lines, Json
CONSTANTS Mode, M, N, Fam, Stride, Off, D
VARIABLES st, hist, np, g
vars == <<st, hist, np, g>>
G == (0..M) \X (0..M)
Hash == FoldLeft(LAMBDA h, x : ((h * 37) + (x[1] * 5) + x[2] + 1) % 30011, 7, g)
Rn(a, b) == RandomElement(a..b)
Ev(o, r) == [ op |-> o[1], a |-> Tail(o), r |-> r ]

(*------------------------------ random histories --------------------------*)
C(z) == IF Rn(0,5) = 0 THEN Rn(-30,30) ELSE Rn(-6,6)
W(z) == CASE Rn(0,3) = 0 -> Rn(-3,3) [] OTHER -> 1
I(z) == Rn(1,4)
WOp(k, z) ==
  CASE k = 0 -> <<"pt", I(z), Rn(0,1), C(z), C(z), Rn(0,3)>>
    [] k = 1 -> <<"pt", I(z), Rn(2,8), C(z), C(z), W(z)>>
    [] k = 2 -> <<"pcp", I(z), Rn(0,2), I(z)>>
    [] k = 3 -> <<"pll", I(z), Rn(0,2), I(z), I(z)>>
    [] k = 4 -> <<"ptr", I(z), Rn(0,2), C(z), C(z)>>
    [] k = 5 -> <<"pmv", I(z), I(z)>>
    [] k = 6 -> <<"pgc", I(z), I(z), Rn(0,1), C(z)>>
    [] k = 7 -> <<"pce", I(z), Rn(0,1), I(z)>>
    [] k = 8 -> <<"pen", I(z), Rn(0,1), I(z), Rn(0,1)>>
    [] k \in {9,10,11} -> <<"lpp", I(z), Rn(0,2), I(z), I(z)>>
    [] k = 12 -> <<"lab", I(z), Rn(0,10), C(z), C(z), C(z)>>
    [] k = 13 -> <<"lcp", I(z), Rn(0,1), I(z)>>
    [] k = 14 -> <<"lpar", I(z), I(z), I(z)>>
    [] k = 15 -> <<"lort", I(z), I(z), I(z)>>
    [] k = 16 -> <<"lorc", I(z), I(z), Rn(0,1), C(z)>>
    [] k \in {17,24} -> <<"lrot", I(z), I(z), I(z), Rn(0,11)>>
    [] k = 18 -> <<"lbi", I(z), Rn(0,1), I(z)>>
    [] k = 19 -> <<"lse", I(z), Rn(0,1), I(z)>>
    [] k \in {20,21} -> <<"sg", Rn(0,1), I(z), Rn(0,7), I(z), I(z)>>
    [] k = 22 -> <<"scv", I(z), I(z), Rn(0,1)>>
    [] k = 23 -> <<"srv", I(z), I(z)>>
    [] k = 25 -> <<"scp", Rn(0,1), I(z), I(z)>>
    [] k = 26 -> <<"stl", Rn(0,1), I(z), Rn(0,2), C(z), C(z)>>
    [] k = 27 -> <<"smv", Rn(0,1), I(z), Rn(0,2), C(z), C(z)>>
    [] k = 28 -> <<"smp", Rn(0,1), I(z), I(z)>>
    [] k = 29 -> <<"ssp", Rn(0,1), I(z), I(z), Rn(0,1)>>
    [] k = 30 -> <<"sex", Rn(0,1), I(z), I(z)>>
    [] OTHER -> <<"ltr", I(z), Rn(0,1), C(z), C(z)>>
\* the writing calls of the families
KS == CASE Fam = "dual" -> {0,1,2,3,4,5,6,9,10,11,12,13,14,15,3,8} [] Fam = "seg" -> {0,1,7,8,18,19,20,21,22,23,25,26,27,28,29,30,4}
        [] OTHER -> {0,1,0,3,6,9,10,12,14,15,16,17,24,18,19,20,21,23,29,31}
QD(k, z) == CASE k = 0 -> <<"eqp", I(z), I(z)>> [] k = 1 -> <<"eql", I(z), I(z)>> [] k = 2 -> <<"inc", I(z), I(z)>> [] k = 3 -> <<"col", I(z), I(z), I(z)>> [] OTHER -> <<"pd", I(z), I(z)>>
QS(k, z) == CASE k = 0 -> <<"seq", Rn(0,1), I(z), I(z)>> [] k = 1 -> <<"sid", I(z), I(z)>> [] k = 2 -> <<"gpa", I(z), Rn(-1,9)>> [] k = 3 -> <<"spd", I(z), Rn(0,9)>>
              [] k = 4 -> <<"ctr", I(z), I(z)>> [] OTHER -> <<"ang", Rn(1,2), I(z), Rn(1,2), I(z)>>
QA(k, z) == CASE k = 0 -> <<"ang", Rn(0,2), I(z), Rn(0,2), I(z)>> [] k = 1 -> <<"lpls", I(z), Rn(-5,5)>> [] k = 2 -> <<"lgp", I(z), I(z), Rn(0,9)>>
              [] k = 3 -> <<"lgc", I(z), Rn(0,1), C(z), Rn(0,9)>> [] k = 4 -> <<"los", I(z), I(z)>> [] k = 5 -> <<"sop", Rn(0,1), I(z)>>
              [] k = 6 -> <<"sps", Rn(0,1), I(z), Rn(0,8)>> [] k = 7 -> <<"inc", I(z), I(z)>> [] k = 8 -> <<"col", I(z), I(z), I(z)>>
              [] k = 9 -> <<"tan", C(z), C(z), Rn(1,9), C(z), C(z), Rn(1,9)>>
              [] k = 10 -> LET n == Rn(2,6) IN <<"bis", Rn(0,1), n>> \o [ i \in 1..(2*n) |-> Rn(-6,6) ]
              [] OTHER -> <<"eql", I(z), I(z)>>
Qu(z) == CASE Fam = "dual" -> QD(Rn(0,4), z) [] Fam = "seg" -> QS(Rn(0,5), z) [] OTHER -> QA(Rn(0,11), z)
ObsOf(o) == CASE o[1] \in PtOps -> <<"po", o[2]>> [] o[1] \in LineOps -> <<"lo", o[2]>> [] o[1] \in SegOps -> <<"so", o[2], o[3]>>
              [] o[1] = "scv" -> <<"so", 0, o[2]>> [] OTHER -> <<"so", 1, o[2]>>
Res(o) == LET x == Out(st, Ev(o, "ok")) IN IF x.t THEN "throw" ELSE "ok"
SimNext == /\ np < D
           /\ \E o \in { WOp(RandomElement(KS), np) } : \E q1 \in { Qu(1) } : \E q2 \in { Qu(2) } :
                /\ st' = Apply(st, Ev(o, Res(o)))
                /\ hist' = hist \o << o, ObsOf(o), q1, q2 >>
                /\ np' = np + 1 /\ g' = g

(*------------------------------ enumeration -------------------------------*)
\* the scenario of four grid points, through varying ways of building
Scen(z) ==
  LET h == Hash
      pt(i) == <<"pt", i, h % 2, g[i][1], g[i][2], (h \div 2) % 4>>
      base == << <<"begin">>, pt(1), pt(2), pt(3), pt(4) >>
      sgs == << <<"sg", 0, 1, h % 8, 1, 2>>, <<"sg", 1, 1, (h \div 3) % 8, 1, 2>>, <<"sg", 0, 2, (h \div 5) % 8, 3, 4>>, <<"sg", 1, 2, (h \div 7) % 8, 3, 4>> >>
      lns == << <<"lpp", 1, h % 3, 1, 2>>, <<"lpp", 2, (h \div 2) % 3, 3, 4>> >>
  IN base \o
     CASE Fam = "dual" -> lns \o << <<"lo",1>>, <<"inc",1,1>>, <<"inc",2,1>>, <<"inc",3,1>>, <<"lpp",3,h % 3,2,1>>, <<"eql",1,3>>, <<"eql",1,2>>, <<"eqp",1,2>>, <<"eqp",1,3>>, <<"pd",1,4>>,
                               <<"pll",4,h % 3,1,2>>, <<"po",4>>, <<"inc",4,1>>, <<"inc",4,2>>, <<"pll",3,(h+1) % 3,2,1>>, <<"eqp",3,4>>, <<"lpp",4,h % 2,4,1>>, <<"eql",4,1>>, <<"col",1,2,4>> >>
       [] Fam = "seg" -> sgs \o << <<"so",0,1>>, <<"so",1,1>>, <<"seq",0,1,2>>, <<"seq",1,1,2>>, <<"sid",1,3>>, <<"sid",1,4>>, <<"srv",3,1>>, <<"so",1,3>>, <<"sid",3,3>>, <<"so",1,1>>,
                              <<"ssp",h % 2,4,1,(h \div 2) % 2>>, <<"so",h % 2,4>>, <<"sex",h % 2,3,2>>, <<"so",h % 2,3>>, <<"scv",4,1,h % 2>>, <<"seq",0,4,1>>, <<"gpa",1,1 + (h % 5)>>, <<"spd",2,1 + (h % 3)>>,
                              <<"smp",h % 2,1,4>>, <<"so",h % 2,1>> >>
       [] OTHER -> sgs \o lns \o << <<"ang",0,1,0,2>>, <<"ang",h % 3,1,(h \div 3) % 3,2>>, <<"ang",2,1,2,2>>, <<"lpar",3,1,3>>, <<"lo",3>>, <<"lort",4,1,3>>, <<"lo",4>>, <<"los",1,3>>, <<"inc",3,1>>, <<"inc",4,1>>,
                              <<"lrot",3,1,1 + (h % 3),h % 12>>, <<"lo",3>>, <<"lgp",1,2,h % 6>>, <<"lgc",1,h % 2,h % 4,1 + (h % 5)>>, <<"lpls",1,1 + (h % 4)>>, <<"sps",h % 2,1,1 + (h % 4)>>,
                              <<"sop",h % 2,1>>, <<"lbi",4,h % 2,1>>, <<"lo",4>>, <<"col",1,2,3>>, <<"col",3,4,2>>,
                              <<"tan",g[1][1],g[1][2],1 + (h % 3),g[2][1]*3,g[2][2]*3,1 + ((h \div 3) % 4)>>,
                              <<"bis",h % 2,4>> \o FlattenSeq(g), <<"bis",1,3>> \o FlattenSeq(SubSeq(g,2,4)) >>
Init == st = InitSt /\ hist = << <<"begin">> >> /\ np = 0 /\ g = <<>>
Next == IF Mode = "sim" THEN SimNext
        ELSE Len(g) < 4 /\ \E x \in G : g' = Append(g, x) /\ UNCHANGED <<st, hist, np>>
Spec == Init /\ [][Next]_vars
Emit == IF Mode = "sim" THEN np = D => PrintT(ToJson(hist))
        ELSE (Len(g) = 4 /\ Hash % Stride = Off) => PrintT(ToJson(Scen(1)))

(*--------------------------------- laws -----------------------------------*)
PG(i) == MkP(<<g[i][1], g[i][2], 1>>, 0)
Laws == Len(g) = 4 =>
  LET p1 == PG(1) p2 == PG(2) p3 == PG(3) p4 == PG(4) IN
  /\ (g[1] # g[2]) =>
       LET l == LineThrough(p1, p2) m == LineThrough(p2, p1) IN
       /\ l.t = m.t /\ On(p1, l) /\ On(p2, l)
       /\ (On(p3, l) <=> Cross(g[1], g[2], g[3]) = 0)
       /\ LET k == ParLine(l, p3) o == OrtLine(l, p3) IN
            /\ On(p3, k) /\ Par2(DirL(k), DirL(l)) /\ On(p3, o) /\ DotV(DirL(o), DirL(l)) = 0
            /\ (On(p3, l) => k.t = l.t)
       /\ \A a \in 0..11 : LET r == RotLine(l, p1, a) c == CosSin(a) u == DirL(l) v == DirL(r) IN
            /\ On(p1, r)
            \* the rotated direction: rot(u) parallel to v
            /\ CrossV(<< c[1]*u[1] - c[2]*u[2], c[2]*u[1] + c[1]*u[2] >>, v) = 0
       /\ LET s == MkSeg(0, p1, p2) IN s = MkSeg(0, p2, p1) /\ LineS(s).t = l.t /\ ~LessP(s.b, s.a)
            /\ LET o == MkSeg(1, p1, p2) h1 == Mid(p1, p2)
                   e == [ a |-> Para(p1, p1, p2), b |-> Para(p2, p2, p1) ]
               IN On(h1, l) /\ Mid(h1, h1).t = h1.t /\ On(e.a, l) /\ On(e.b, l) /\ Mid(e.a, e.b).t = h1.t
       /\ (g[3] # g[4]) =>
            LET n == LineThrough(p3, p4) IN
            /\ (Par2(DirL(l), DirL(n)) <=> Parallel(g[1], g[2], g[3], g[4]))
            /\ ~Par2(DirL(l), DirL(n)) =>
                 LET x == MkP(Cross3(l.t, n.t), 0) y == MkP(Cross3(n.t, l.t), 0) IN x.t = y.t /\ On(x, l) /\ On(x, n)
                     \* duality: the lines joining the crossing to another point of the line give the line back
                     /\ (x.t # p1.t => LineThrough(x, p1).t = l.t)
Sound == \A i \in Slots : LET x == st.p[i] l == st.l[i] IN
           /\ (Known(x) => Red3(x.t) = x.t /\ x.t[3] >= 0) /\ (Known(l) => Red3(l.t) = l.t /\ (l.t[1] > 0 \/ (l.t[1] = 0 /\ l.t[2] > 0)))
           /\ (KnownS(st.s[i]) => ~LessP(st.s[i].b, st.s[i].a))
=============================================================================
