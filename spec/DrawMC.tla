-------------------------------- MODULE DrawMC ------------------------------
(* Mode "enum": every history of up to N calls of a small set, with the laws   *)
(* below; Mode "sim": random histories over everything.                        *)
EXTENDS Draw, Json
CONSTANTS Mode, N, Stride, Off_, D
VARIABLES st, hist, np
vars == <<st, hist, np>>
Rn(a, b) == RandomElement(a..b)
Ev(o) == [ op |-> o[1], a |-> Tail(o), r |-> "ok", ref |-> TRUE, same |-> TRUE ]
Small == { <<"col",1,0,10,20,30>>, <<"spt",1,1>>, <<"six",2,1>>, <<"att",2,2>>, <<"siz",1,7>>, <<"siz",2,4>>, <<"sty",2,5>>, <<"def",1>>, <<"def",2>>, <<"rst">>, <<"dpn",2>>, <<"dpc",2,1,0>>,
           <<"dr",1,0,0,3,40,40,80,120>>, <<"dr",1,1,1,8,3,40,40,80,40,80,80>>, <<"dr",2,2,2,5,100,100,40>>, <<"drc",1,0,2,1,2,40,44,48,52>>, <<"dr",2,0,0,4,400,400,412,416>>,
           <<"clr",1,2>>, <<"red",1,2,0>>, <<"raw",1,11>>, <<"new",2,300,200>> }
Hash == FoldLeft(LAMBDA h, o : FoldLeft(LAMBDA k, v : ((k * 31) + v + 1000) % 30011, (h * 7 + Len(o)) % 30011, Tail(o)), 7, hist)

(*------------------------------ random histories --------------------------*)
K(z) == Rn(1,3)
I(z) == Rn(1,2)
M(z) == IF Rn(0,2) = 0 THEN 0 ELSE Rn(1,3)
X(z) == CASE Rn(0,9) = 0 -> Rn(-80,0) [] Rn(0,9) = 0 -> 4*Rn(480,700) [] OTHER -> Rn(0,1990)
Pt(z) == << X(z), X(z) >>
Dirs == << <<12,16>>, <<16,-12>>, <<-20,0>>, <<0,28>>, <<-60,-80>>, <<5,12>>, <<-15,8>>, <<0,-4>>, <<3,0>>, <<400,300>> >>
\* a chain of distinct successive points, axis-aligned or diagonal steps half of the time
Chain(n, k) == LET f(a, i) == LET p == Last(a) IN
                     Append(a, IF k = 0 THEN LET v == Rn(4,80) IN << p[1] + v * RandomElement({-1,0,1}), p[2] + v * RandomElement({-1,1}) >> ELSE << p[1] + Rn(1,60) * RandomElement({-1,1}), p[2] + Rn(-60,60) >>)
               IN FoldLeft(f, << Pt(1) >>, [ i \in 1..(n-1) |-> i ])
Distinct(q) == Cardinality({ q[i] : i \in 1..Len(q) }) = Len(q)
Poly(closed, z) == LET n == IF closed THEN Rn(3,6) ELSE Rn(2,6)  q == Chain(n, Rn(0,1)) IN
                   IF ~Distinct(q) THEN <<0>> ELSE <<n>> \o FlattenSeq(q)
TwoPts(z) == LET p == Pt(z) q == Pt(z) IN IF p = q THEN << p[1], p[2], q[1] + 4, q[2] >> ELSE p \o q
Obj(k, z) ==
  CASE k = 1 -> Pt(z)
    [] k = 2 -> IF Rn(0,1) = 0 THEN TwoPts(z) ELSE LET p == Pt(z) IN p \o RandomElement({ << p[1] + 8, p[2] >>, << p[1], p[2] + 12 >>, << p[1] + 4, p[2] + 4 >>, << p[1] + 8, p[2] - 4 >> })
    [] k = 3 -> TwoPts(z)
    [] k = 4 -> LET p == Pt(z) d == Dirs[Rn(1,10)] IN p \o Add(p, d)
    [] k = 5 -> Pt(z) \o << Rn(1,300) >>
    [] k = 6 -> LET p == Pt(z) IN p \o << p[1] + Rn(1,300) * RandomElement({-1,1}), p[2] + Rn(1,300) * RandomElement({-1,1}) >>
    [] k = 7 -> LET m == Rn(20,200) IN Pt(z) \o << m, IF Rn(0,5) = 0 THEN m ELSE Rn(10,200), Rn(-11,12) >>
    [] OTHER -> Poly(k = 8, z)
Chars == << 97, 66, 48, 32, 60, 62, 38, 34, 39, 61, 59, 35, 45, 46 >>
\* (a text has no white space at its ends, and is not empty)
Txt(z) == << 120 >> \o [ i \in 1..Rn(0,6) |-> Chars[Rn(1,14)] ] \o << 121 >>
SetOp(k, z) ==
  CASE k = 0 -> <<"col", K(z), Rn(0,1), Rn(0,255), Rn(0,255), Rn(0,255)>>
    [] k = 1 -> <<"thk", K(z), Rn(1,9)>>
    [] k \in {2,3} -> <<"sty", K(z), IF Rn(0,8) = 0 THEN Rn(6,9) ELSE Rn(0,5)>>
    [] k = 4 -> <<"siz", K(z), IF Rn(0,3) = 0 THEN 2*Rn(0,5) ELSE 2*Rn(0,6) + 1>>
    [] k \in {5,6} -> <<"spt", K(z), Rn(0,1)>>
    [] k = 7 -> <<"six", K(z), Rn(0,1)>>
    [] k = 8 -> <<"san", K(z), Rn(0,1)>>
    [] k = 9 -> <<"fnt", K(z), Rn(2,40)>>
    [] k = 10 -> <<"att", K(z), Rn(0,4)>>
    [] k = 11 -> IF Rn(0,2) = 0 THEN <<"rst">> ELSE <<"def", K(z)>>
    [] k = 12 -> <<"dpn", K(z)>>
    [] k = 13 -> <<"dpc", K(z), K(z), Rn(0,1)>>
    [] OTHER -> <<"sel", K(z)>>
DrawOp(k, z) ==
  CASE k <= 9 -> LET kd == IF k = 0 THEN 3 ELSE k IN <<"dr", I(z), Rn(0,2), M(z), kd>> \o Obj(kd, z)
    [] k \in {10,11} -> LET kd == RandomElement({1,3,1,3,2,4,5,6,7})  n == Rn(1,4) IN
          <<"drc", I(z), Rn(0,2), IF Rn(0,2) = 0 THEN 9 ELSE M(z), kd, n>> \o FlattenSeq([ i \in 1..n |-> Obj(kd, i) ])
    [] k = 12 -> LET k1 == Rn(1,9) k2 == Rn(1,9) IN <<"drp", I(z), Rn(0,1), M(z), k1, k2>> \o Obj(k1, z) \o Obj(k2, z)
    [] k = 13 -> <<"txt", I(z), Rn(0,1), M(z)>> \o Pt(z) \o Txt(z)
    [] k = 14 -> <<"raw", I(z), Rn(1,13)>>
    [] k = 15 -> LET i == I(z) IN <<"red", i, 3 - i, M(z)>>
    [] k = 16 -> <<"new", I(z), Rn(100,600), Rn(100,600)>>
    [] k = 17 -> <<"ssz", I(z), Rn(0,2), Rn(100,600), Rn(100,600)>>
    [] OTHER -> <<"clr", I(z), Rn(0,3)>>
ObsAfter(o) == IF o[1] \in Setters \cup {"dpn","dpc"} THEN << <<"dpo", o[2]>> >> ELSE IF o[1] \in {"new","ssz"} THEN << <<"isz", o[2]>> >> ELSE <<>>
\* an image that grows too long is observed no more than needed
Few(s) == Len(s.im[1].els) + Len(s.im[2].els) < 120
\* a chain of random points may double back: such polylines are checked by other modules
SimNext == /\ np < D
           /\ \E o \in { IF Rn(0,2) = 0 THEN SetOp(Rn(0,14), np) ELSE DrawOp(IF Few(st) THEN Rn(0,20) ELSE 18, np) } :
                /\ st' = Apply(st, Ev(o))
                /\ hist' = hist \o << o >> \o ObsAfter(o)
                           \o (IF np % 6 = 5 \/ np = D - 1 THEN << <<"doc", 1>>, <<"imp", 1>>, <<"doc", 2>>, <<"imp", 2>>, <<"dpo", 1>>, <<"dpo", 2>>, <<"dpo", 3>>, <<"isz", 1>> >> ELSE <<>>)
                /\ np' = np + 1
EnumNext == np < N /\ \E o \in Small : st' = Apply(st, Ev(o)) /\ hist' = Append(hist, o) /\ np' = np + 1
RtNext == /\ np < D
          /\ \E o \in { LET k == Rn(0,26) IN
                  CASE k <= 14 -> LET kd == RandomElement({3,4,5,6,7,8,9}) IN <<"dr", I(np), Rn(0,2), M(np), kd>> \o Obj(kd, np)
                    [] k \in 15..18 -> <<"raw", I(np), Rn(1,13)>>
                    [] k = 19 -> <<"txt", I(np), 0, M(np)>> \o Pt(np) \o Txt(np)
                    [] k \in {20,21} -> <<"drc", I(np), Rn(0,2), 0, 3, 2>> \o Obj(3, 1) \o Obj(3, 2)
                    [] k = 22 -> <<"dr", I(np), 0, M(np), 2>> \o Obj(2, np)
                    [] k = 23 -> IF Rn(0,1) = 0 THEN <<"att", K(np), Rn(0,4)>> ELSE <<"spt", K(np), Rn(0,1)>>
                    [] k = 24 -> <<"clr", I(np), Rn(0,3)>>
                    [] OTHER -> IF Few(st) THEN LET i == I(np) IN <<"red", i, 3 - i, 0>> ELSE <<"clr", I(np), 0>> } :
               /\ st' = Apply(st, Ev(o))
               /\ hist' = Append(hist, o) \o (IF np % 4 = 3 \/ np = D - 1 THEN << <<"imp", 1>>, <<"imp", 2>> >> ELSE <<>>)
               /\ np' = np + 1
Init == st = InitSt /\ hist = << <<"begin">> >> /\ np = 0
Next == IF Mode = "sim" THEN SimNext ELSE IF Mode = "rt" THEN RtNext ELSE EnumNext
Spec == Init /\ [][Next]_vars
Fin == << <<"dpo",1>>, <<"dpo",2>>, <<"dpo",3>>, <<"doc",1>>, <<"doc",2>>, <<"imp",1>>, <<"imp",2>>, <<"isz",1>>, <<"isz",2>>, <<"dpn",3>>, <<"dpo",3>> >>
Emit == IF Mode # "enum" THEN np = D => PrintT(ToJson(hist))
        ELSE (np = N /\ Hash % Stride = Off_) => PrintT(ToJson(hist \o Fin))

(*--------------------------------- laws -----------------------------------*)
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
\* each call changes only what it is given
Frame == [][ LET o == hist'[Len(hist')] k == o[1] IN
   /\ (k \notin {"def","rst"}) => st'.def = st.def
   /\ (k \in Setters \cup {"dpn","dpc"}) => st'.im = st.im /\ \A j \in 1..3 : j # o[2] => st'.dp[j] = st.dp[j]
   /\ (k \notin Setters \cup {"dpn","dpc"}) => st'.dp = st.dp
   /\ (k \in Draws) => /\ st'.im[3 - o[2]] = st.im[3 - o[2]]
                       /\ IsPre(st.im[o[2]].els, st'.im[o[2]].els)
   /\ (k = "red") => st'.im[1] = st.im[1] ]_vars
Laws == \A i \in 1..2 :
  LET els == st.im[i].els  v == Imp(els)
      again == Tail2(Img0, FlattenSeq([ j \in 1..Len(v) |-> RedEls(D0, Img0, v[j]) ])) IN
  st.im[i].ok =>
  /\ \A j \in 0..Len(els) : Imp(els) = Imp(SubSeq(els, 1, j)) \o Imp(SubSeq(els, j + 1, Len(els)))
  /\ again.ok /\ Imp(again.els) = v                                   \* exporting what was read gives it back
=============================================================================
