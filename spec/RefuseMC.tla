------------------------------- MODULE RefuseMC ------------------------------
(* Mode "enum": every sequence of up to N requests of a catalogue, accepted    *)
(* and refused ones in turn; Mode "sim": random histories.                      *)
EXTENDS Refuse, Json
CONSTANTS Mode, N, Stride, Off, D
VARIABLES st, hist, np
vars == <<st, hist, np>>
R(a, b) == RandomElement(a..b)
Ev(o) == LET e == [ op |-> o[1], a |-> Tail(o) ] m == Must(st, e) IN [ op |-> o[1], a |-> Tail(o), r |-> IF m = "ok" THEN "ok" ELSE "throw" ]
Go(o) == LET e == Ev(o) IN IF e.r = "ok" THEN Done(st, e) ELSE st
Cat == << <<"pset",0,3,4,2>>, <<"pset",1,0,0,0>>, <<"ppl",0,0,0,0,5>>, <<"ppl",1,0,0,2,5>>, <<"lset",0,0,0,3>>, <<"lset",1,2,-1,3>>, <<"lpp",2,1,1,1,1>>, <<"lpp",0,1,2,3,-1>>,
          <<"lq",0,2,0,0,1,1>>, <<"lq",1,2,0,0,1,1>>, <<"lq",3,0,0,0,1,1>>, <<"lq",5,0,0,0,1,1>>, <<"lq",6,0,0,0,0,3>>, <<"lq",8,0,1,1,1,5>>, <<"lq",9,0,0,0,0,0>>,
          <<"sset",0,1,2,2,2,2>>, <<"sset",0,0,3,1,-1,2>>, <<"sset",1,4,1,0,1,0>>, <<"sset",1,1,0,0,4,3>>, <<"sq",0,-1,0,0,0,0>>, <<"sq",1,2,0,0,0,0>>, <<"sq",3,0,0,0,0,0>>, <<"sq",4,0,0,1,1,0>>,
          <<"cset",0,0,0,0>>, <<"cset",1,2,1,3>>, <<"cset",3,2,1,-2>>, <<"c2p",0,1,1,1,1>>, <<"c2p",1,0,0,4,2>>, <<"c3p",0,0,0,1,1,3,3>>, <<"c3p",1,0,0,2,1,-1,3>>, <<"cct",0,1,2,2>>, <<"cct",1,3,0,0,2,1,1,4>>, <<"dnc",1>>,
          <<"rset",0,1,1,1,4>>, <<"rset",2,0,0,3,2>>, <<"rwh",1,1,0,2>>, <<"rwh",1,1,3,2>>, <<"rq",0,2,1,5,5>>,
          <<"plset",0,0,4,0,0,4,0,4,3,0,3>>, <<"plset",0,2,3,0,0,2,2,0,0>>, <<"plset",1,1,1,5,5>>, <<"plset",1,2,3,0,0,2,0,2,3>>, <<"plset",0,3,0>>, <<"plset",0,0,4,0,0,2,2,2,0,0,2>>, <<"plpar",0,0,1,1,2,2>>, <<"plpar",0,0,3,0,4,2>>,
          <<"plrcp",0,2,5>>, <<"plrcp",1,2,2>>, <<"plrcp",0,0,5>>, <<"plq",0,0,4,0,0>>, <<"plq",0,3,0,0,0>>, <<"plq",0,4,0,0,0>>, <<"plq",0,5,0,2,1>>, <<"plq",1,13,0,-1,1>>, <<"plq",1,7,0,0,0>>, <<"plq",0,7,0,0,0>>, <<"plq",0,9,0,0,0>>, <<"plq",1,2,2,0,0>>,
          <<"hset",0,2,2,0>>, <<"hset",1,3,1,2>>, <<"hset",1,0,0,2>>, <<"hset",0,1,1,0>>, <<"hinv">>, <<"hnrm">>, <<"hvec",3,3,0>>, <<"hvec",3,3,2>>, <<"hvec",2,3,1>>, <<"hpl",0>>, <<"hpl",1>>, <<"hpl",2>>,
          <<"fq",6,1,2,2>>, <<"fq",10,0>>, <<"fq",11,0>>, <<"tan",2,1,3>>, <<"col",20,20>> >>
Closing == << <<"lq",0,1,0,0,1,1>>, <<"sq",4,0,0,1,1,0>>, <<"rq",1,0,0,2,2>>, <<"plq",0,0,0,0,0>>, <<"plq",0,4,0,0,0>>, <<"plq",1,3,0,0,0>>, <<"hpl",2>>, <<"hinv">>, <<"cset",0,0,0,2>>, <<"tan",2,1,2>>, <<"plq",0,5,0,1,1>>, <<"ppl",0,0,0,3,1>> >>
Hash == FoldLeft(LAMBDA h, o : FoldLeft(LAMBDA k, v : ((k * 31) + v + 1000) % 30011, (h * 7 + Len(o)) % 30011, Tail(o)), 7, hist)
(*------------------------------ random histories --------------------------*)
C(z) == IF R(0,3) = 0 THEN R(-9,9) ELSE R(-2,3)
Pt(z) == << C(z), C(z) >>
Pts(n) == <<n>> \o FlattenSeq([ i \in 1..n |-> Pt(i) ])
Ks == {1,2,3,4,5,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34}
Op1(k, z) ==
  CASE k = 1 -> <<"pset",R(0,3)>> \o Pt(z) \o <<R(-1,2)>>
    [] k = 2 -> <<"ppl",R(0,2)>> \o Pt(z) \o Pt(z)
    [] k = 3 -> <<"lset",R(0,3),R(-1,1),R(-1,2),C(z)>>
    [] k = 4 -> <<"lpp",R(0,2)>> \o Pt(z) \o Pt(z)
    [] k \in {5,6} -> <<"lq",R(0,11),C(z)>> \o Pt(z) \o Pt(z)
    [] k \in {7,8} -> <<"sset",R(0,1),R(0,5)>> \o Pt(z) \o Pt(z)
    [] k \in {9,10} -> <<"sq",R(0,5),R(-1,6)>> \o Pt(z) \o Pt(z)
    [] k \in {11,12} -> <<"cset",R(0,6)>> \o Pt(z) \o <<R(-1,5)>>
    [] k = 13 -> <<"c2p",R(0,2)>> \o Pt(z) \o Pt(z)
    [] k = 14 -> <<"c3p",R(0,1)>> \o Pt(z) \o Pt(z) \o Pt(z)
    [] k = 15 -> <<"cct",R(0,1)>> \o Pts(R(0,5))
    [] k = 16 -> <<"dnc",R(0,1)>>
    [] k = 17 -> <<"rset",R(0,4)>> \o Pt(z) \o Pt(z)
    [] k = 18 -> <<"rwh">> \o Pt(z) \o <<R(-1,6),R(-1,6)>>
    [] k = 19 -> <<"rq",R(0,1)>> \o Pt(z) \o Pt(z)
    [] k \in {20,21,22} -> <<"plset",R(0,1),R(0,4)>> \o Pts(R(0,6))
    [] k = 23 -> <<"plpar">> \o Pt(z) \o Pt(z) \o Pt(z)
    [] k = 24 -> <<"plrcp",R(0,1),R(-1,5),R(0,8)>>
    [] k \in {25,26,27} -> <<"plq",R(0,1),R(0,14),R(0,6)>> \o Pt(z)
    [] k \in {28,29} -> <<"hset",R(0,2),R(0,3),R(0,2),R(-1,2)>>
    [] k = 30 -> <<IF R(0,1) = 0 THEN "hinv" ELSE "hnrm">>
    [] k = 31 -> <<"hvec",R(2,4),R(2,4),R(0,2)>>
    [] k = 32 -> <<"hpl",R(0,2)>>
    [] k = 33 -> IF R(0,2) = 0 THEN <<"tan">> \o Pt(z) \o <<R(0,4)>> ELSE <<"fq",R(0,12)>> \o Pts(R(0,4))
    [] OTHER -> IF R(0,4) = 0 THEN <<"col",R(0,100),R(0,200)>> ELSE <<"hvec",3,3,R(-1,2)>>
Tame(n) == /\ (n.h.d # 0 => n.h.d <= 200 /\ HM!MaxAbs(n.h.m) <= 200)
           /\ \A q \in {n.cp, n.op} : \A i \in 1..Len(q.v) : Abs(q.v[i][1]) <= 60 /\ Abs(q.v[i][2]) <= 60
           /\ (n.s.ok => Abs(n.s.a[1]) <= 60 /\ Abs(n.s.a[2]) <= 60 /\ Abs(n.s.b[1]) <= 60 /\ Abs(n.s.b[2]) <= 60)
Init == st = InitSt /\ hist = << <<"begin">> >> /\ np = 0
Next == IF Mode = "sim"
        THEN /\ np < D /\ np' = np + 1
             /\ \E o \in { Op1(RandomElement(Ks), np) } : \E n \in { Go(o) } :
                  IF Tame(n) THEN hist' = Append(hist, o) /\ st' = n ELSE hist' = Append(hist, <<"hvec",3,3,1>>) /\ st' = Go(<<"hvec",3,3,1>>)
        ELSE np < N /\ \E i \in 1..Len(Cat) : hist' = Append(hist, Cat[i]) /\ np' = np + 1 /\ st' = Go(Cat[i])
Spec == Init /\ [][Next]_vars
Emit == IF Mode = "sim" THEN np = D => PrintT(ToJson(hist))
        ELSE (np = N /\ Hash % Stride = Off) => PrintT(ToJson(hist \o Closing))
(*------------------- what refusing is for: objects stay valid --------------*)
Laws == /\ st.l[1] # 0 \/ st.l[2] # 0
        /\ (st.s.ok => st.s.a # st.s.b) /\ (st.o.ok => st.o.a # st.o.b)
        /\ (st.c.ok /\ ~st.dnc) => (st.c.rr > 0 \/ \E i \in 1..Len(hist) : hist[i][1] = "dnc")
        /\ st.b[1] < st.b[3] /\ st.b[2] < st.b[4]
        /\ (st.cp.k = "pts" => FineList(st.cp.v)) /\ (st.op.k = "pts" => FineList(st.op.v))
Kept == [][ LET o == hist'[Len(hist')] IN Must(st, [ op |-> o[1], a |-> Tail(o) ]) = "throw" => st' = st ]_vars
=============================================================================
