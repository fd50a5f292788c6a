------------------------------- MODULE SetsMC -------------------------------
(* Every list of up to N points of a small grid (Mode "enum"), checked        *)
(* against the definitions; or random histories (Mode "sim").                  *)
EXTENDS Sets, Json
CONSTANTS Mode, M, N, Fam, Stride, Off, D
VARIABLES st, hist
vars == <<st, hist>>
G == (0..M) \X (0..M)
Hash(p) == FoldLeft(LAMBDA h, x : ((h * 37) + (x[1] * 5) + x[2] + 1) % 30011, 7, p)
H == Hash(st.p)
Q(f, i) == CASE f = "hull" -> << <<"hull",i % 4>> >>
             [] f = "ext" -> << <<"ext",i % 5>> >>
             [] f = "near" -> << <<"near",i % 3, i % 4>>, <<"near", i % 2, 1>> >>
             [] f = "bb" -> << <<"bbp",i % 3>> >>
             [] f = "mec" -> << <<"mec",i % 5>> >> \o (IF i % 3 = 0 THEN << <<"cir", 3 - (i % 2), 0, i % 3, 1 + (i % 4)>> >> ELSE <<>>)
             [] OTHER -> << <<"ins",5,0,0,M,1 + (i % 2)>>, <<"ins",6,1,1,1 + (i % 2)>>, <<"ins",7,4,0,0,M+1,0,1,1,0,M+1>> >>
Scen(p) == LET h == Hash(p)
           IN << <<"begin">>, <<"set", Len(p)>> \o FlattenSeq(p) >> \o Q(Fam, h) \o Q(Fam, h+1)
              \o (CASE h % 3 = 0 -> << <<"rev">> >> [] h % 3 = 1 -> << <<"rotl", 1 + (h % 5)>> >> [] OTHER -> << <<"dup", h % 4>> >>)
              \o Q(Fam, h+2) \o << <<"srt">> >> \o Q(Fam, h+3)
R(a, b) == RandomElement(a..b)
SimOps(dummy) == { <<"add", R(-6,6), R(-6,6)>>, <<"add", R(-1,1), R(-1,1)>>, <<"pop">>, <<"rev">>, <<"rotl", R(0,5)>>, <<"dup", R(0,7)>>, <<"srt">> }
          \cup { Q(Fam, R(0,11))[1] }
Init == st = InitSt /\ hist = << <<"begin">> >>
Next == IF Mode = "sim"
        THEN Len(hist) < D /\ \E o \in SimOps(Len(hist)) : /\ hist' = Append(hist, o)
                                                /\ st' = [ st EXCEPT !.p = Effect(st.p, [ op |-> o[1], a |-> Tail(o) ]) ]
        ELSE Len(st.p) < N /\ \E x \in G : st' = [ st EXCEPT !.p = Append(st.p, x) ] /\ hist' = hist
Spec == Init /\ [][Next]_vars
Emit == IF Mode = "sim" THEN Len(hist) = D => PrintT(ToJson(hist))
        ELSE H % Stride = Off => PrintT(ToJson(Scen(st.p)))
\* the extreme points, put in angular order, form the hull; it is unique
Around(q, P) == CHOOSE w \in [ 1..Cardinality(P) -> P ] : w[1] = q /\ IsHull(w, P)
P1 == Pos(st.p)
HullOK == (Cardinality(P1) >= 3 /\ ~Aligned(P1) /\ Cardinality(Extreme(P1)) <= 5) =>
   LET E == Extreme(P1)  n == Cardinality(E)
       c == { w \in [ 1..n -> E ] : IsHull(w, P1) }
   IN /\ Cardinality(c) = 2*n       \* n starts, two directions
      /\ \A w, v \in c : SameCycle(w, v)
      /\ \A x \in { Top(P1), Bot(P1), Lef(P1), Rig(P1) } : x \in E
\* a smallest circle exists among those of pairs and triples, with the stated certificate
CC(a, b, d) == LET D2x == 2 * Cross(a,b,d)
                   u == Sub(b,a)  v == Sub(d,a)
                   ux == v[2]*DotV(u,u) - u[2]*DotV(v,v)
                   uy == u[1]*DotV(v,v) - v[1]*DotV(u,u)
               IN << a[1]*1000 + (ux*1000) \div D2x, a[2]*1000 + (uy*1000) \div D2x >>
Cands(P) == { << <<(x[1]+y[1])*500, (x[2]+y[2])*500>>, x >> : x, y \in P } \cup { << CC(t[1],t[2],t[3]), t[1] >> : t \in { z \in P \X P \X P : Cross(z[1],z[2],z[3]) # 0 } }
MecOK == Cardinality(P1) >= 2 => \E k \in Cands(P1) : LET r == ISqrt(Dk(k[2], k[1])) IN IsMec(k[1], r, P1)
=============================================================================
