-------------------------------- MODULE TolMC --------------------------------
(* Histories: tolerances are set, saved, restored; decisions are asked for in   *)
(* between.  Mode "enum": sequences of N steps of a catalogue; Mode "sim":       *)
(* random ones, where figures are chosen close to the limit of a decision.       *)
EXTENDS Tol, Json
CONSTANTS Mode, N, Stride, Off, D
VARIABLES st, hist, np
vars == <<st, hist, np>>
R(a, b) == RandomElement(a..b)
Go(o) == Next1(st, [ op |-> o[1], a |-> Tail(o) ])
Acts == << <<"set",1,24>>, <<"set",1,0>>, <<"set",1,40>>, <<"set",2,20>>, <<"set",3,8>>, <<"set",4,6>>, <<"set",5,48>>, <<"save",1>>, <<"restore",1>>, <<"set",1,80>> >>
Asks == << <<"eq",0,0,1,0>>, <<"eq",0,0,0,2>>, <<"ln",0,0,0,1,1>>, <<"ln",1,0,0,2,1>>, <<"sg",0,3,3,2,3>>, <<"pl",1,4,0,0,5,0,5,5,0,1>>, <<"ci",2,0,0,30>>, <<"ci",0,0,0,20>>, <<"col",0,0,6,0,3,1>>,
           <<"col",0,0,6,0,3,2>>, <<"lab",6,0,0,0,5>>, <<"lab",4,0,0,0,5>>, <<"side",0,0,8,2,4,2>>, <<"side",0,0,2,-9,1,2>>, <<"os",0,0,5,0,2,1>>, <<"gp",0,0,5,0,2,1,3>>, <<"leq",0,0,0,5,0,0,1,5,1>>,
           <<"par",0,0,0,10,0,0,0,10,4>>, <<"par",1,0,0,10,0,0,0,10,6>>, <<"it",0,0,0,10,0,0,1,10,5>>, <<"it",3,0,0,10,0,0,1,10,5>>, <<"hc",2,0,0,0,1,0,0,0,5>>, <<"inv",2,0,0,0,1,0,0,0>>, <<"inv",1,0,1,0,4,0,0,0>>,
           <<"heq",1,0,0,0,1,0,0,0,0,2,0,0,0,0,0,0,0>>, <<"inf",1,2,4>>, <<"inf",3,2,0>>, <<"cd",0,0,10,1,1,3>>, <<"rc",0,0,0,1,5>>, <<"bb",2,0,0,1,5>>, <<"min",0,4,0,0,5,0,9,1,12,1>>, <<"ln",0,0,0,10,-1>>, <<"ln",0,0,0,10,1>>,
           <<"pip",4,1,1,0,0,9,0,9,9,0,9>>, <<"pip",4,4,3,0,0,9,0,9,9,0,9>> >>
(*------------------------------ random histories --------------------------*)
C(z) == IF R(0,3) = 0 THEN R(-12,12) ELSE R(-4,5)
Pt(z) == << C(z), C(z) >>
Big(z) == << R(-12,12), R(-12,12) >>
\* a point close to q
By(q) == << q[1] + R(-2,2), q[2] + R(-2,2) >>
Pts(n) == FlattenSeq([ i \in 1..n |-> Pt(i) ])
\* nearly parallel second pair
Turned(p, q) == LET s == By(p) IN s \o << s[1] + q[1] - p[1] + R(-1,1), s[2] + q[2] - p[2] + R(-1,1) >>
Set1(k) == CASE k = 1 -> <<"set",1,IF R(0,2) = 0 THEN 0 ELSE R(1,64)>> [] k = 2 -> <<"set",2,IF R(0,2) = 0 THEN 0 ELSE R(1,64)>> [] k = 3 -> <<"set",3,IF R(0,2) = 0 THEN 0 ELSE R(1,20)>>
             [] k = 4 -> <<"set",4,IF R(0,2) = 0 THEN 0 ELSE R(1,15)>> [] OTHER -> <<"set",5,IF R(0,2) = 0 THEN 0 ELSE R(1,100)>>
Op1(k, z) ==
  CASE k \in 1..4 -> Set1(R(1,5))
    [] k = 5 -> <<"save",R(1,5)>> [] k = 6 -> <<"restore",R(1,5)>> [] k = 7 -> <<"pr">>
    [] k = 8 -> LET p == Pt(z) IN <<"eq">> \o p \o By(p)
    [] k = 9 -> LET p == Pt(z) IN <<"ln",R(0,3)>> \o p \o By(p)
    [] k = 10 -> <<"ln",R(0,3)>> \o Big(z) \o Big(z)
    [] k = 11 -> LET p == Pt(z) IN <<"sg",R(0,4)>> \o p \o By(p)
    [] k \in {12,13} -> LET n == R(2,6) IN <<"pl",R(0,3),n>> \o Pts(n)
    [] k = 14 -> LET v == R(0,4) IN <<"ci",v>> \o Pt(z) \o <<IF v = 4 THEN R(-4,4) ELSE R(-4,70)>>
    [] k = 15 -> <<"c3">> \o Pts(3)
    [] k \in {16,17} -> LET p == Big(z) q == Big(z) m == << (p[1]+q[1]) \div 2, (p[2]+q[2]) \div 2 >> IN <<"col">> \o p \o q \o By(m)
    [] k \in {18,19} -> LET w == RandomElement({<<3,4,5>>,<<4,-3,5>>,<<0,6,6>>,<<-7,0,7>>,<<6,8,10>>,<<0,2,2>>}) c == Pt(z) IN <<"lab">> \o By(<<c[1]+w[1],c[2]+w[2]>>) \o c \o <<w[3]>>
    [] k \in {20,21,22} -> LET p == Big(z) q == Big(z) m == << (p[1]+q[1]) \div 2, (p[2]+q[2]) \div 2 >> t == R(1,4) IN
                        CASE t \in {1,2} -> <<"side">> \o p \o q \o By(m) [] t = 3 -> <<"gp">> \o p \o q \o (IF R(0,1) = 0 THEN p ELSE By(m)) \o <<R(1,9)>> [] OTHER -> <<"os">> \o p \o q \o By(m)
    [] k = 23 -> LET p == Big(z) IN <<"cd">> \o p \o (IF R(0,1) = 0 THEN Big(z) ELSE LET q == By(p) IN << q[1], p[2] + R(-11,11)>>) \o <<R(0,1),C(z)>>
    [] k = 24 -> LET p == Big(z) q == Big(z) IN <<"leq",R(0,1)>> \o p \o q \o (IF R(0,2) = 0 THEN Turned(p,q) ELSE LET d == << R(-2,2), R(-2,2) >> IN << p[1]+d[1], p[2]+d[2], q[1]+d[1], q[2]+d[2] >>)
    [] k \in {25,26} -> LET p == Big(z) q == Big(z) IN <<"par",R(0,5)>> \o p \o q \o (IF R(0,3) = 0 THEN Big(z) \o Big(z) ELSE Turned(q,p))
    [] k \in {27,28} -> LET p == Big(z) q == Big(z) IN <<"it",R(0,3)>> \o p \o q \o (IF R(0,1) = 0 THEN Big(z) \o Big(z) ELSE Turned(p,q))
    [] k = 29 -> <<"hc">> \o [ i \in 1..8 |-> R(-2,2) ] \o << R(-12,12) >>
    [] k \in {30,31} -> <<"inv">> \o (IF R(0,1) = 0 THEN [ i \in 1..8 |-> R(-2,2) ] ELSE << R(-1,3), R(-1,1), R(-3,3), R(-1,1), R(1,3), R(-3,3), 0, 0 >>)
    [] k = 32 -> LET o == R(1,8) IN <<"heq">> \o [ i \in 1..8 |-> R(-3,3) ] \o <<0>> \o [ i \in 1..8 |-> IF i = o THEN R(-100,100) ELSE IF R(0,3) = 0 THEN R(-9,9) ELSE 0 ]
    [] k = 33 -> <<"inf", R(-4,4), R(-4,4), R(-12,12)>>
    [] k = 34 -> LET p == Pt(z) IN <<"rc",R(0,3)>> \o p \o (IF R(0,2) = 0 THEN By(p) ELSE << p[1] + R(-9,9), p[2] + R(-4,4) >>)
    [] k = 35 -> LET n == R(2,4) q == Pt(z) IN <<"bb",n>> \o FlattenSeq([ i \in 1..n |-> By(q) ])
    [] k \in {36,37,38} -> LET n == R(3,5) p == Pt(z) v == Big(z) IN <<"min",R(0,1),n>> \o FlattenSeq([ i \in 1..n |-> << p[1] + i * (v[1] \div 3) + R(-1,1), p[2] + i * (v[2] \div 3) + R(-1,1) >> ])
    [] OTHER -> LET p == Pt(z) IN IF R(0,1) = 0 THEN LET w == R(5,12) h == R(5,12) IN <<"pip",4,R(0,w),R(0,h),0,0,w,0,w,h,0,h>>
                ELSE <<"pip",3>> \o Pt(z) \o Big(z) \o Big(z) \o Big(z)
Init == st = InitSt /\ hist = << <<"begin">> >> /\ np = 0
Next == np < (IF Mode = "sim" THEN D ELSE N) /\ np' = np + 1 /\
        IF Mode = "sim" THEN \E o \in { Op1(RandomElement(1..41), np) } : hist' = Append(hist, o) /\ st' = Go(o)
        ELSE \E i \in 1..Len(Acts) : hist' = (hist \o << Acts[i] >>) /\ st' = Go(Acts[i])
Spec == Init /\ [][Next]_vars
Hash == FoldLeft(LAMBDA h, o : FoldLeft(LAMBDA k, v : ((k * 31) + v + 1000) % 30011, (h * 7 + Len(o)) % 30011, Tail(o)), 7, hist)
Emit == IF Mode = "sim" THEN np = D => PrintT(ToJson(hist))
        ELSE (np = N /\ Hash % Stride = Off) => PrintT(ToJson(<<hist[1]>> \o Asks \o FlattenSeq([ i \in 1..np |-> << hist[i+1] >> \o [ j \in 1..12 |-> Asks[1 + ((i*12 + j*7 + Hash) % Len(Asks))] ] ]) \o Asks \o <<<<"pr">>>>))
(*------------------------- laws of the decisions ---------------------------*)
E(o) == [ op |-> o[1], a |-> Tail(o) ]
Def == [ st EXCEPT !.t = [ i \in 1..5 |-> 0 ] ]
Only(k) == [ st EXCEPT !.t = [ i \in 1..5 |-> IF i = k THEN st.t[i] ELSE 0 ] ]
\* the tolerance each decision rests on; with all the others at their default value the outcome is the same
Own(o) == CASE o[1] \in {"eq","ln","sg","pl","ci","col","lab","os","gp"} -> 1 [] o[1] \in {"rc"} -> 2 [] o[1] \in {"par","min"} -> 3 [] o[1] = "hc" -> 4 [] OTHER -> 0
OwnOK == \A i \in 1..Len(Asks) : LET o == Asks[i] k == Own(o) IN
            (k # 0 /\ o[1] \notin {"par","min"}) => Throws(st, E(o)) = Throws(Only(k), E(o))
\* raising a tolerance only ever refuses more, and restoring brings the same decisions back
MonoOK == \A i \in 1..Len(Asks) : LET o == Asks[i] IN o[1] # "gp" =>
            \A k \in 1..5 : LET up == [ st EXCEPT !.t[k] = @ + 16 ] IN Throws(st, E(o)) = "y" => Throws(up, E(o)) # "n"
BackOK == \A k \in 1..5 : LET s == Next1(st, [op |-> "save", a |-> <<k>>])
                              u == Next1(Next1(s, [op |-> "set", a |-> <<k, 33>>]), [op |-> "restore", a |-> <<k>>]) IN u.t = st.t
SymOK == \A i \in 1..Len(Asks) : LET o == Asks[i] IN
          /\ o[1] = "eq" => Same(st, P(Tail(o),1), P(Tail(o),3)) = Same(st, P(Tail(o),3), P(Tail(o),1))
          /\ o[1] = "par" => LineDirPar(st, P(Tail(o),2), P(Tail(o),4), P(Tail(o),6), P(Tail(o),8)) = LineDirPar(st, P(Tail(o),8), P(Tail(o),6), P(Tail(o),2), P(Tail(o),4))
          /\ o[1] = "col" => Col(st, P(Tail(o),1), P(Tail(o),3), P(Tail(o),5)) = Col(st, P(Tail(o),5), P(Tail(o),1), P(Tail(o),3))
=============================================================================
