-------------------------------- MODULE RtpMC --------------------------------
(* Mode "enum": every figure of a catalogue, sent through every sequence of up *)
(* to N transformations, looked at in every way; mode "sim": random lists.     *)
EXTENDS Rtp, Json
CONSTANTS Mode, N, Stride, Off, D
VARIABLES st, hist, np
vars == <<st, hist, np>>
R(a, b) == RandomElement(a..b)
Figs == << <<1,3,-2>>, <<1,0,0>>, <<2,0,0,1,2>>, <<2,1,3,4,3>>, <<2,2,-1,2,4>>, <<3,1,2,4,6>>, <<3,2,3,2,-1>>, <<3,5,1,1,1>>, <<4,4,6,1,2>>, <<4,0,1,-3,1>>, <<4,2,0,2,5>>, <<5,0,1,4,3>>, <<5,-3,-1,2,4>>,
           <<6,1,2,3>>, <<6,0,0,1>>, <<7,0>>, <<7,2,0,0,3,1>>, <<7,3,0,0,4,0,1,3>>, <<7,3,0,0,1,1,2,2>>, <<7,3,1,4,3,4,5,4>>, <<7,4,0,0,4,0,4,3,0,3>>, <<7,4,0,0,3,3,3,0,0,3>>, <<7,5,0,0,4,0,2,1,4,4,0,4>>,
           <<8,0>>, <<8,2,1,1,1,5>>, <<8,3,0,0,2,3,5,1>>, <<8,4,0,0,0,3,0,5,0,1>>, <<9,1,2,3,1>>, <<9,-2,1,2,4>>, <<9,0,3,2,2>> >>
Mats == << <<1,0,0,0,1,0>>, <<1,0,3,0,1,-2>>, <<0,-1,0,1,0,0>>, <<-1,0,1,0,1,2>>, <<2,0,0,0,1,0>>, <<0,2,1,1,0,0>>, <<1,1,0,0,1,0>>, <<1,-2,1,1,1,-1>>, <<-2,1,0,0,-1,3>> >>
New(f) == << "push", (Len(f) + f[2]) % 3 >> \o f
Ks == {1,2,3,4,5,6,7,8,9}
Looks(i, h) == << <<"obs",i>> >> \o [ k \in 1..9 |-> <<"unw",i,k,h % 2>> ] \o [ k \in 1..9 |-> <<"cast",i,k,(h \div 2) % 2>> ] \o << <<"bbn",i>>, <<"drw",h % 2>>, <<"bbn">> >>
Hash == FoldLeft(LAMBDA h, o : FoldLeft(LAMBDA k, v : ((k * 31) + v + 1000) % 30011, (h * 7 + Len(o)) % 30011, Tail(o)), 7, hist)
(*------------------------------ random lists ------------------------------*)
C(z) == R(-6,8)
Pt(z) == << C(z), C(z) >>
Pts(n) == <<n>> \o FlattenSeq([ i \in 1..n |-> Pt(i) ])
RFig(k, z) ==
  CASE k = 1 -> <<1>> \o Pt(z)
    [] k \in {2,3,4,5} -> <<k>> \o Pt(z) \o Pt(z)
    [] k = 6 -> <<6>> \o Pt(z) \o << IF R(0,15) = 0 THEN 0 ELSE R(1,6) >>
    [] k = 9 -> <<9>> \o Pt(z) \o << R(1,6), R(1,6) >>
    [] OTHER -> IF R(0,2) = 0 THEN <<k>> \o RandomElement({ <<4,0,0,4,0,4,3,0,3>>, <<5,0,0,4,0,2,1,4,4,0,4>>, <<6,0,0,5,0,5,5,3,5,3,2,0,2>>, <<4,-1,-1,3,3,3,-1,-1,3>> })
                ELSE <<k>> \o Pts(RandomElement({0,1,2,3,3,4,5}))
RMat(z) == RandomElement({ <<1,0,C(0),0,1,C(1)>>, <<0,-1,C(0),1,0,C(1)>>, <<0,1,C(0),-1,0,C(1)>>, <<-1,0,C(0),0,-1,C(1)>>, <<-1,0,C(0),0,1,C(1)>>, <<0,1,C(0),1,0,C(1)>>,
                           <<R(1,2),R(-2,2),C(0),0,1,C(1)>>, <<1,0,C(0),R(-2,2),R(1,2),C(1)>>, <<1,-1,C(0),1,1,C(1)>>, <<1,2,C(0),-1,1,C(1)>> })
Op1(k, n, z) ==
  LET i == R(0, n)  j == R(0, n) IN
  CASE k \in {1,2,3} -> <<"push",R(0,2)>> \o RFig(R(1,9), z)
    [] k = 4 -> <<"set",i,R(0,1)>> \o RFig(R(1,9), z)
    [] k = 5 -> <<"asg",i,j>>
    [] k = 6 -> <<"swp",i,j>>
    [] k = 7 -> <<"pop">>
    [] k \in {8,9,10} -> <<"tra",i,R(0,3)>> \o RMat(z)
    [] k = 11 -> <<"tall">> \o RMat(z)
    [] k \in {12,13,14,15} -> <<"obs",i>>
    [] k \in {16,17} -> <<"unw",i,IF n > 0 /\ i < n /\ R(0,1) = 0 THEN CHOOSE q \in Ks : Kinds[q] = st.l[i+1].k ELSE R(1,9),R(0,1)>>
    [] k = 18 -> <<"cast",i,IF n > 0 /\ i < n /\ R(0,1) = 0 THEN CHOOSE q \in Ks : Kinds[q] = st.l[i+1].k ELSE R(1,9),R(0,1)>>
    [] k = 19 -> <<"bbn">>
    [] k = 20 -> <<"bbn",i,j>>
    [] OTHER -> <<"drw",R(0,1)>>
TameF(f) == /\ f.q <= 8
            /\ \A i \in 1..Len(f.p) : Abs(f.p[i][1]) <= 90 /\ Abs(f.p[i][2]) <= 90
            /\ (Round(f) => f.sh[1] + f.sh[3] <= 3000 /\ f.m <= 1500 /\ f.m * 12 >= f.sh[1] + f.sh[3])
Tame(n) == Len(n.l) <= 8 /\ \A i \in 1..Len(n.l) : TameF(n.l[i])
Ev(o) == [ op |-> o[1], a |-> Tail(o) ]
Go(o) == Apply(st, Ev(o))
Init == st = InitSt /\ hist = << <<"begin">> >> /\ np = 0
Next == np < D /\ np' = np + 1 /\
        IF Mode = "sim"
        THEN \E o \in { Op1(R(1,21), Len(st.l), np) } : \E n \in { Go(o) } :
               IF Tame(n) THEN hist' = Append(hist, o) /\ st' = n ELSE hist' = Append(hist, <<"pop">>) /\ st' = Go(<<"pop">>)
        ELSE IF np = 0 THEN \E f \in Range(Figs) : \E o \in { New(f) } : hist' = Append(hist, o) /\ st' = Go(o)
        ELSE \E h \in Range(Mats) : \E o \in { <<"tra",0,(np + h[1] + h[2]) % 4>> \o h } : hist' = Append(hist, o) /\ st' = Go(o)
Spec == Init /\ [][Next]_vars
Emit == IF Mode = "sim" THEN np = D => PrintT(ToJson(hist))
        ELSE (np >= 1 /\ Hash % Stride = Off) => PrintT(ToJson(hist \o Looks(0, Hash)))
(*----------------- laws of the transformations and of the looks -----------*)
Body(f) == [ f EXCEPT !.q = 0 ]
Comp(h, g) == << h[1]*g[1] + h[2]*g[4], h[1]*g[2] + h[2]*g[5], h[1]*g[3] + h[2]*g[6] + h[3],
                 h[4]*g[1] + h[5]*g[4], h[4]*g[2] + h[5]*g[5], h[4]*g[3] + h[5]*g[6] + h[6] >>
AreaM(f) == CASE f.k = "rect" -> 2*(f.p[2][1]-f.p[1][1])*(f.p[2][2]-f.p[1][2]) [] Round(f) -> f.m [] f.k = "cp" -> IF SimplePoly(f.p) THEN Abs(Area2(f.p)) ELSE 0 [] OTHER -> 0
LawsOf(f) == /\ \A h \in Range(Mats) : LET g == Trans(h, f) IN
                  /\ AreaM(g) = Abs(DetA(h)) * AreaM(f)
                  /\ f.k \notin {"circ","rect"} => g.k = f.k
                  /\ \A h2 \in Range(Mats) : Body(Trans(h2, g)) = Body(Trans(Comp(h2, h), f))
             /\ Round(f) => f.sh[1]*f.sh[3] - f.sh[2]*f.sh[2] = f.m*f.m
             /\ Box(f) # <<>> => \A i \in 1..Len(f.p) : LET b == Box(f) IN b[1] <= f.p[i][1]*LS /\ f.p[i][1]*LS <= b[3] /\ b[2] <= f.p[i][2]*LS /\ f.p[i][2]*LS <= b[4]
Laws == \A i \in 1..Len(st.l) : LawsOf(st.l[i])
=============================================================================
