-------------------------------- MODULE Print -------------------------------
(***************************************************************************)
(* Text output.  Five slots hold objects; printing one shows its values, in    *)
(* order, and changes nothing: neither the object, nor the format of the        *)
(* stream, nor any other stream.  Coordinates in quarters; values of events in   *)
(* thousandths.                                                                   *)
(***************************************************************************)
EXTENDS Geom
InitSt == [ s \in 0..4 |-> << 0 >> ]             \* slot: << kind, values >>
M(v) == v * 250
Pair(a, i) == << a[i], a[i+1] >>
PairsOf(a, i0) == [ i \in 1..((Len(a) - i0 + 1) \div 2) |-> Pair(a, i0 + 2*(i-1)) ]
\* the object made by values a of kind k
Obj(k, a) == CASE k \in {8, 9} -> << k, PairsOf(a, 3) >>
               [] k \in {11, 12} -> << k - 3, <<>> >>
               [] OTHER -> << k, SubSeq(a, 3, Len(a)) >>
Valid(k, a) == CASE k \in {2, 3, 4} -> Pair(a, 3) # Pair(a, 5)
                 [] k = 5 -> a[5] > 0
                 [] k = 6 -> a[3] # a[5] /\ a[4] # a[6]
                 [] k \in {8, 9} -> LET p == PairsOf(a, 3) IN Len(p) >= 2 /\ p[1] # p[Len(p)] /\ \A i \in 1..Len(p)-1 : p[i] # p[i+1]
                 [] k = 13 -> a[3] # 0 \/ a[4] # 0
                 [] OTHER -> TRUE
ShiftP(p, d) == << p[1] + d[1], p[2] + d[2] >>
Shifted(o, d) ==
  LET k == o[1]  v == o[2] IN
  CASE k = 1 -> << k, ShiftP(v, d) >>
    [] k \in {3, 4, 6} -> << k, << v[1] + d[1], v[2] + d[2], v[3] + d[1], v[4] + d[2] >> >>
    [] k \in {5, 7} -> << k, << v[1] + d[1], v[2] + d[2] >> \o SubSeq(v, 3, Len(v)) >>
    [] k \in {8, 9} -> << k, [ i \in 1..Len(v) |-> ShiftP(v[i], d) ] >>
    [] k = 10 -> << k, << v[1] + d[1], v[2] + d[2], v[3], v[4] >> >>
    [] OTHER -> o
\* values obs show the object o
Pm(p) == << M(p[1]), M(p[2]) >>
Shows(o, obs) ==
  LET k == o[1]  v == o[2]  n == Len(obs) IN
  CASE k = 1 -> obs = Pm(v)
    [] k = 2 -> /\ n = 3
                /\ Abs(obs[1] * obs[1] + obs[2] * obs[2] - 1000000) <= 2900
                /\ \A i \in {1, 3} : Abs(obs[1] * v[i] + obs[2] * v[i+1] + 4 * obs[3]) <= Abs(v[i]) + Abs(v[i+1]) + 4
    [] k = 3 -> n = 4 /\ { Pair(obs, 1), Pair(obs, 3) } = { Pm(Pair(v, 1)), Pm(Pair(v, 3)) }
    [] k = 4 -> n = 4 /\ Pair(obs, 1) = Pm(Pair(v, 1)) /\ Pair(obs, 3) = Pm(Pair(v, 3))
    [] k = 6 -> obs = << M(Min2(v[1], v[3])), M(Min2(v[2], v[4])), M(Max2(v[1], v[3])), M(Max2(v[2], v[4])) >>
    [] k = 5 -> obs = << M(v[1]), M(v[2]), M(v[3]) >>
    [] k = 7 -> LET hi == Max2(v[3], v[4])  lo == Min2(v[3], v[4])  t == v[5]
                    d == (obs[3] - 45000 * t) % 180000 IN
                /\ n = 5 /\ \A i \in 1..2 : Abs(obs[i] - M(v[i])) <= 2 + Abs(v[i]) \div 20
                /\ Abs(obs[4] - M(hi)) <= 2 + hi \div 20 /\ Abs(obs[5] - M(lo)) <= 2 + hi \div 20
                /\ (2 * hi >= 3 * lo => d <= 300 \/ d >= 179700)
    [] k \in {8, 9} -> /\ n = 2 * Len(v)
                       /\ LET q == PairsOf(obs, 1)  p == [ i \in 1..Len(v) |-> Pm(v[i]) ]  m == Len(v) IN
                          IF k = 9 \/ m = 0 THEN q = p \/ q = [ i \in 1..m |-> p[m + 1 - i] ]
                          ELSE \E r \in 0..m-1 : \/ q = [ i \in 1..m |-> p[1 + ((i + r) % m)] ]
                                                 \/ q = [ i \in 1..m |-> p[1 + ((r + m - i) % m)] ]
    [] k = 10 -> obs = << M(v[3]), 0, M(v[1]), 0, M(v[4]), M(v[2]), 0, 0, 1000 >>
    [] k = 13 -> n = 3 /\ obs[3] = 0 /\ (obs[1] # 0 \/ obs[2] # 0) /\ Abs((obs[1] \div 50) * v[2] - (obs[2] \div 50) * v[1]) <= 2 * (Abs(v[1]) + Abs(v[2]))
    [] OTHER -> FALSE
\* printed numbers n show values v with prec digits (0: the default, 6), in format how
Close(n, v, prec, how) == Abs(n - v) <= 1 + (IF prec = 3 /\ how = 0 THEN Abs(v) \div 180 ELSE IF prec = 3 /\ how = 1 THEN Abs(v) \div 1800 ELSE IF prec = 0 THEN Abs(v) \div 180000 ELSE 0)
CloseQ(n, v, prec, how) == Len(n) = Len(v) /\ \A i \in 1..Len(v) : Close(n[i], v[i], prec, how)
Clean(e) == e.r = "ok" /\ e.same /\ e.quiet /\ e.fmt
Pts2(q) == PairsOf(q, 2)
Accepts(st, e) ==
  LET o == IF e.op = "begin" THEN <<0>> ELSE st[e.a[1]] IN
  CASE e.op = "begin" -> TRUE
    [] e.op = "mk" -> IF Valid(e.a[2], e.a) THEN e.r = "ok" ELSE e.r \in {"throw", "ok"}
    [] e.op \in {"mv", "cmp"} -> e.r \in {"ok", "skip"} \/ (Len(o) > 1 /\ o[2] = <<>>)
    [] e.op = "prn" -> IF o = <<0>> THEN e.r = "skip"
                       ELSE /\ Clean(e) /\ e.v = e.w /\ Shows(o, e.v) /\ CloseQ(e.n, e.v, e.a[2], e.a[3])
    [] e.op = "lst" -> IF o = <<0>> \/ o[1] = 10 THEN e.r = "skip"
                       ELSE LET f(k) == IF k = 13 THEN 1 ELSE k
                                same == { s \in 0..4 : st[s] # <<0>> /\ f(st[s][1]) = f(o[1]) } IN
                            /\ Clean(e) /\ e.v[1] = 1000 * (IF e.a[4] = 2 THEN 2 ELSE e.a[5] * Cardinality(same)) /\ CloseQ(e.n, e.v, e.a[2], e.a[3])
    [] e.op = "par" -> \/ e.r = "skip"
                       \/ (Clean(e) /\ CloseQ(e.n, e.v, e.a[2], e.a[3]))
    [] e.op = "itx" -> \/ e.r \in {"skip", "throw"}
                       \/ /\ Clean(e) /\ Len(e.n) >= 1 /\ e.n[1] = e.v[1]
                          /\ IF e.set THEN /\ Len(e.n) = Len(e.v)
                                           /\ LET a == Pts2(e.n)  b == Pts2(e.v) IN
                                              /\ \A p \in ToSet(b) : \E r \in ToSet(a) : Close(r[1], p[1], e.a[2], e.a[3]) /\ Close(r[2], p[2], e.a[2], e.a[3])
                                              /\ \A p \in ToSet(a) : \E r \in ToSet(b) : Close(p[1], r[1], e.a[2], e.a[3]) /\ Close(p[2], r[2], e.a[2], e.a[3])
                             ELSE e.v[1] = 1000 => CloseQ(e.n, e.v, e.a[2], e.a[3])
    [] e.op = "dpr" -> IF e.r = "skip" THEN TRUE ELSE IF e.a[5] % 2 = 0 THEN e.r = "throw" ELSE (Clean(e) /\ e.n = [ i \in 1..7 |-> 1000 * << e.a[7], e.a[8], e.a[9], e.a[4], e.a[5], e.a[10], e.a[6] >>[i] ])
    [] OTHER -> FALSE
Apply(st, e) ==
  CASE e.op = "mk" /\ e.r = "ok" -> IF Valid(e.a[2], e.a) THEN [ st EXCEPT ![e.a[1]] = Obj(e.a[2], e.a) ] ELSE st
    [] e.op = "mv" /\ e.r = "ok" -> [ st EXCEPT ![e.a[1]] = Shifted(@, << e.a[2], e.a[3] >>) ]
    [] OTHER -> st
=============================================================================
