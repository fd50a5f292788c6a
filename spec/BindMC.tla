-------------------------------- MODULE BindMC -------------------------------
(* Mode "enum": every list of up to N points of a small grid imported as a    *)
(* polygon; Mode "sim": random histories.                                     *)
EXTENDS Bind, Json
CONSTANTS Mode, N, Stride, Off, D
VARIABLES st, hist, np, g
vars == <<st, hist, np, g>>
R(a, b) == RandomElement(a..b)
Ev(o) == [ op |-> o[1], a |-> Tail(o), r |-> "ok" ]
G == { <<0,0>>, <<1,0>>, <<3,1>>, <<0,4>> }
Hash == FoldLeft(LAMBDA h, x : ((h * 37) + (x[1] * 5) + x[2] + 1) % 30011, 7, g)
Scen(v) == LET w == <<v, Len(g)>> \o FlattenSeq(g) IN
   << <<"begin">>, <<"ply",1,0,3,0,0,3,5,6,1>>, <<"plo",1>>, <<"ply",1>> \o w, <<"plo",1>>, <<"ply",2>> \o w, <<"plo",2>>, <<"plm",1,3,-1>>, <<"plr",2>>, <<"plo",1>>, <<"plo",2>>,
      <<"ply",1,(v+1) % 8>> \o Tail(w), <<"ply",2,(v+3) % 8,2,0,0,5,5>>, <<"plo",2>>, <<"plo",1>> >>
RP(d) == << R(-15,15), R(-15,15) >>
RPoly(d) == LET n == RandomElement({0,1,2,3,3,4,5,6})
                w == [ i \in 1..n |-> << R(-6,6), R(-6,6) >> ]
            IN IF n > 0 /\ R(0,1) = 0 THEN Append(w, w[1]) ELSE w
Flat(w) == <<Len(w)>> \o FlattenSeq(w)
Twice(p) == << 2*p[1], 2*p[2] >>
Ops(d) == LET s == R(1,3)  t == R(1,3)  k == R(1,2)  w == R(1,4) * (2*R(0,1) - 1) IN
  { <<"pin",s,R(0,11)>> \o RP(d) \o <<w>>, <<"pin",s,RandomElement({2,13,14,15,16})>> \o Twice(RP(d)) \o <<w>>, <<"pin",s,R(13,14)>> \o RP(d) \o <<w>>,
    <<"pout",s,R(0,14)>>, <<"pout",t,R(0,14)>>, <<"pout",t,R(0,14)>>, <<"pts",R(0,3),s,t,R(1,3)>>, <<"pts",R(0,3)>>, <<"pmv",s>> \o RP(d), <<"peq",s,t>>,
    <<"lin",R(0,7)>> \o RP(d) \o RP(d), <<"lin",R(0,7),R(-1,1),R(-1,1),R(-1,1),R(-1,1)>>, <<"lar",R(0,4),R(-5,5),R(-5,5),R(-9,9)>>,
    <<"ply",k,R(0,7)>> \o Flat(RPoly(d)), <<"ply",k,R(0,7)>> \o Flat(RPoly(d)), <<"plo",k>>, <<"plm",k>> \o RP(d), <<"plr",k>>, <<"frm",R(0,3),R(0,3)>>, <<"frm",R(1,900),R(1,900)>> }
Init == st = InitSt /\ hist = << <<"begin">> >> /\ np = 0 /\ g = <<>>
Next == IF Mode = "sim"
        THEN /\ np < D /\ np' = np + 1 /\ g' = g
             /\ \E o \in { RandomElement(Ops(np)) } : hist' = Append(hist, o) /\ st' = Apply(st, Ev(o))
        ELSE Len(g) < N /\ \E x \in G : g' = Append(g, x) /\ UNCHANGED <<st, hist, np>>
Spec == Init /\ [][Next]_vars
Emit == IF Mode = "sim" THEN np = D => PrintT(ToJson(hist))
        ELSE Hash % Stride = Off => PrintT(ToJson(Scen(Hash % 8)))
\* what may be stored is never a degenerate polyline; a polygon is imported the same with or without its repeated point
Laws == /\ \A s \in 1..2 : ~ImpThrows(s, g) => Fine(Stored(g))
        /\ (~Closes(g) /\ Len(g) > 1) => (ImpThrows(1, g) = ImpThrows(1, Append(g, g[1])) /\ Stored(Append(g, g[1])) = Stored(g))
        /\ Fine(st.c) /\ Fine(st.o)
=============================================================================
