------------------------------- MODULE WorldMC ------------------------------
(* Model checking of World on pairs of small figures and generation of       *)
(* histories.  Mode "pair": every pair of a catalogue of figures of the kinds *)
(* KF x KG on a small grid; Mode "sim": random histories over all slots.      *)
EXTENDS World, Json
CONSTANTS Mode, KF, KG, M, Fam, Stride, Off, D
VARIABLES st, hist
vars == <<st, hist>>
G == (0..M) \X (0..M)
G2 == { x \in G : x[1] <= 2 /\ x[2] <= 2 }
KNum(k) == CHOOSE i \in 1..8 : Kinds[i] = k
Figs(k) ==
  CASE k = "pt" -> { Fig("pt", <<x>>, 0) : x \in G }
    [] k \in {"line","oseg"} -> { Fig(k, <<x[1],x[2]>>, 0) : x \in { y \in G2 \X G2 : y[1] # y[2] } }
    [] k = "seg" -> { Fig(k, <<x[1],x[2]>>, 0) : x \in { y \in G \X G : Less(y[1], y[2]) } }
    [] k = "rect" -> { Fig(k, <<x[1],x[2]>>, 0) : x \in { y \in G \X G : y[1][1] < y[2][1] /\ y[1][2] < y[2][2] } }
    [] k = "circ" -> { Fig(k, <<x>>, r) : x \in G, r \in 1..2 } \cup { Fig(k, << <<1,1>> >>, 5), Fig(k, << <<0,0>> >>, 5) }
    [] k = "cp" -> { Fig(k, <<x, y, z>>, 0) : x \in {<<0,0>>, <<0,M>>}, y \in G2, z \in { p \in G : p[2] >= 1 } }
                   \cup { Fig(k, << <<0,0>>, x, <<M,M>>, y >>, 0) : x \in G, y \in G }
    [] k = "op" -> { Fig(k, <<x, y, z>>, 0) : x \in {<<0,0>>, <<1,M>>}, y \in G2, z \in G }
FigsOk(k) == { f \in Figs(k) : Valid(f) }
NewOp(s, v, f) == << "new", s, KNum(f.k), v >> \o (IF f.k \in {"cp","op"} THEN <<Len(f.p)>> ELSE <<>>) \o FlattenSeq(f.p)
                  \o (IF f.k = "circ" THEN <<f.r>> ELSE <<>>)
HashFig(f) == FoldLeft(LAMBDA h, p : ((h * 41) + (p[1] * 13) + (p[2] * 7) + 3) % 20011, 5 + f.r, f.p)
Hash(f, g) == ((HashFig(f) * 31) + HashFig(g)) % Stride
Qs(s, t, v) ==
  CASE Fam = "ins" -> << <<"ins",s,t,v>>, <<"ins",t,s,v>> >>
    [] Fam = "itx" -> << <<"itx",s,t,v>>, <<"itx",t,s,v>> >>
    [] Fam = "rect" -> << <<"iar",s,t,v>>, <<"iar",t,s,v>>, <<"uni",s,t,v>>, <<"uni",t,s,v>>, <<"iou",s,t,v>>, <<"iou",t,s,v>> >>
    [] Fam = "dst" -> << <<"dst",s,t,v>>, <<"dst",t,s,v>>, <<"cpt",s,t>>, <<"cpt",t,s>> >>
    [] Fam = "bb" -> << <<"bb2",s,t,v>>, <<"bb2",t,s,v>>, <<"bbn",1,s,t>>, <<"bbn",1,t,s>>, <<"bbk",v,s,t>>, <<"bbk",v,t,s,t>> >>
    [] OTHER -> << <<"eq",s,t>>, <<"eq",t,s>> >>
PairHist(f, g) ==
  LET h == Hash(f, g)  v == h % 3
  IN << <<"begin">>, NewOp(1, h % 2, f), NewOp(2, h % 2, g) >> \o Qs(1, 2, v)
     \o (IF h % 4 = 0 THEN << <<"tr",1,3,-2,h % 3>>, <<"tr",2,3,-2,0>>, <<"asg",3,1>>, <<"conv",4,2>> >> \o Qs(3, 4, 0) ELSE <<>>)
     \o (IF h % 4 = 1 THEN << <<"rotc",1,h % 5,1,2,0>>, <<"rotc",2,h % 5,1,2,1>> >> \o Qs(1, 2, 0) ELSE <<>>)
     \o (IF h % 4 = 2 THEN << <<"eq",1,2>>, <<"eq",2,1>> >> \o Qs(2, 1, 0) ELSE <<>>)
     \o << <<"obs",1>>, <<"obs",2>> >>
(*------------------------------ simulation -------------------------------*)
R(a, b) == RandomElement(a..b)
RandPt(dummy) == << R(-8,8), R(-8,8) >>
RandFig(k) ==
  CASE k = "pt" -> Fig(k, <<RandPt(0)>>, 0)
    [] k = "circ" -> Fig(k, <<RandPt(0)>>, R(0,7))
    [] k \in {"cp","op"} -> RandomElement({ Fig(k, <<RandPt(0),RandPt(0),RandPt(0)>>, 0), Fig(k, <<RandPt(0),RandPt(0),RandPt(0),RandPt(0)>>, 0),
           Fig(k, << <<0,0>>, <<4,0>>, <<6,0>>, RandPt(0), <<0,5>> >>, 0), Fig(k, << <<0,0>>, <<8,0>>, <<8,8>>, <<1,7>>, <<3,3>> >>, 0) })
    [] OTHER -> Fig(k, <<RandPt(0),RandPt(0)>>, 0)
AllFam == {"ins","itx","iar","uni","iou","dst","cpt","bb2"}
FamQ == CASE Fam = "rect" -> {"iar","uni","iou"} [] Fam = "bb" -> {"bb2"} [] Fam = "dst" -> {"dst","cpt"} [] Fam = "eq" -> {} [] OTHER -> {Fam}
QOk(s, t) == LET f == st[s] g == st[t] IN
   CASE Fam = "itx" -> CanItx(f, g) [] Fam = "rect" -> f.k = "rect" /\ g.k = "rect" [] OTHER -> TRUE
RandOps(dummy) ==
  LET s == R(1,6)  t == R(1,6)  k == RandomElement(KF \cup KG)  x == R(-9,9)  y == R(-9,9)  i == R(0,6)
  IN { NewOp(s, R(0,4), RandFig(k)), <<"tr",s,x,y,i % 3>>, <<"mv",s,x,y,i % 3>>, <<"rot",s,i % 5,i % 2>>, <<"rotc",s,i % 5,x,y,i % 2>>, <<"roto",s,i % 5,R(0,4)>>,
       <<"asg",s,t>>, <<"conv",s,t>>, <<"self",s,t>>, <<"seg2",s,t>>, <<"neg",s,t>>, <<"r2p",s,t>>, <<"o2c",s,t>>, <<"setr",s,R(0,6)>>, <<"setc",s,x,y>>,
       <<"own",s,R(0,14),RandomElement({-4,-3,0,3,4,5,12}),RandomElement({-4,-3,3,4,5,12})>>,
       <<"ext",s,t>>, <<"bb",s,t>>, <<"obs",s>>, <<"obs",t>>, <<"eq",s,t>> }
     \cup (IF QOk(s,t) THEN { <<q,s,t,i % 3>> : q \in FamQ } ELSE {}) \cup (IF QOk(t,s) THEN { <<q,t,s,i % 2>> : q \in FamQ } ELSE {})
     \cup (IF Fam = "bb" THEN { <<"bbn",1,s,t,R(1,6),R(1,6)>>, <<"bbn",1,t>>,
                               <<"bbk",R(0,2),s,t,R(1,6)>>, <<"bbk",R(0,2),1,2,3,4,5,6>>, <<"bbk",R(0,2),s,t>> } ELSE {})
SmallFig(f) == (\A i \in 1..Len(f.p) : Abs(f.p[i][1]) <= 30 /\ Abs(f.p[i][2]) <= 30) /\ f.r <= 30
\* the first six calls fill the slots
SetUp(i) == NewOp(i, R(0,2), RandFig(RandomElement(IF i % 2 = 0 THEN KF ELSE KG)))

Init == IF Mode = "sim"
        THEN st = InitSt /\ hist = << <<"begin">> >>
        ELSE \E k \in KF : \E f \in FigsOk(k) : st = [ InitSt EXCEPT ![1] = f ] /\ hist = <<>>
Next == IF Mode = "sim"
        THEN /\ Len(hist) < D
             /\ \E o \in { IF Len(hist) <= 6 THEN SetUp(Len(hist)) ELSE RandomElement(RandOps(Len(hist))) } :
                  \E n \in { Step(st, o) } :
                     IF \A s \in Slots : SmallFig(n[s]) THEN hist' = Append(hist, o) /\ st' = n
                     ELSE hist' = Append(hist, <<"obs", o[2]>>) /\ st' = st
        ELSE /\ st[2] = None
             /\ \E k \in KG : \E g \in FigsOk(k) : st' = [ st EXCEPT ![2] = g ] /\ hist' = hist
Spec == Init /\ [][Next]_vars
HistOK == Mode = "sim" => st = FoldLeft(Step, InitSt, Tail(hist))
F1 == st[1]  F2 == st[2]
Pair == Mode = "pair" /\ F2 # None
Emit == IF Mode = "sim" THEN Len(hist) = D => PrintT(ToJson(hist \o [ s \in 1..6 |-> <<"obs", s>> ]))
        ELSE Pair /\ Hash(F1, F2) = (Off % Stride) => PrintT(ToJson(PairHist(F1, F2)))

(*----------------- what the specification itself must satisfy ------------*)
T(k, f) == MapFig(f, LAMBDA x : TurnAbout(k, x, <<2,-1>>))
Lat == ((-1)..(M+1)) \X ((-1)..(M+1))
InsOK == Pair =>
  /\ Inside(F1, F1) # "T" /\ Inside(F2, F2) # "T"
  /\ ~(Inside(F1, F2) = "T" /\ Inside(F2, F1) = "T")
  /\ \A k \in {0,3} : Inside(T(k,F1), T(k,F2)) = Inside(F1, F2)
  \* a point inside the inner one is inside the outer one; a vertex of the inner one too
  /\ Inside(F1, F2) = "T" => \A x \in Lat : Inside(Fig("pt", <<x>>, 0), F1) = "T" => Inside(Fig("pt", <<x>>, 0), F2) = "T"
  \* strictly inside means: no common boundary point
  /\ (Inside(F1, F2) = "T" /\ F1.k \in Linear \cup Outline /\ F2.k \in Linear \cup Outline) => CommonPts(F1, F2) = {}
ItxOK == Pair /\ F1.k \in Linear \cup Outline /\ F2.k \in Linear \cup Outline =>
  /\ CommonPts(F1, F2) = CommonPts(F2, F1)
  /\ \A k \in {0,4} : Cardinality(CommonPts(T(k,F1), T(k,F2))) = Cardinality(CommonPts(F1, F2))
  /\ F1 = F2 /\ F1.k \in Linear => CommonPts(F1, F2) = {}
DstOK == Pair /\ F2.k = "pt" /\ F1.k \in {"seg","oseg"} =>
  \* the nearest part is an end point exactly when the projection falls outside
  LET a == F1.p[1]  b == F1.p[2]  x == F2.p[1]  u == Sub(b,a)  d == DotV(u, Sub(x,a))
  IN /\ d <= 0 => D2(x,a) <= D2(x,b)
     /\ d >= DotV(u,u) => D2(x,b) <= D2(x,a)
     /\ CmpDist(x, a, b, 1) = CmpDist(x, b, a, 1)
BBOK == Pair =>
  LET w == BoxPts(F1) \o BoxPts(F2) IN w # <<>> =>
     /\ BBox(w) = BBox(BoxPts(F2) \o BoxPts(F1))
     /\ \A i \in 1..Len(w) : BBox(w)[1] <= w[i][1] /\ w[i][1] <= BBox(w)[3] /\ BBox(w)[2] <= w[i][2] /\ w[i][2] <= BBox(w)[4]
EqOK == Pair /\ F1.k = F2.k => EqFig(F1, F2) = EqFig(F2, F1) /\ EqFig(F1, F1) /\ (F1 = F2 => EqFig(F1, F2))
RectsOK == Pair /\ F1.k = "rect" /\ F2.k = "rect" =>
  LET r == RectOf(F1)  t == RectOf(F2)  cells(P(_)) == Cardinality({ c \in Lat : P(c) })
  IN /\ InterArea(r, t) = cells(LAMBDA c : CellInRect(c, r) /\ CellInRect(c, t))
     /\ RectArea(r) + RectArea(t) - InterArea(r, t) = cells(LAMBDA c : CellInRect(c, r) \/ CellInRect(c, t))
     /\ InterArea(r, t) = InterArea(t, r)
=============================================================================
