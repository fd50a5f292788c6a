------------------------------ MODULE EllipseMC -----------------------------
(* Mode "enum": every ellipse of a small family under every pair of maps of a  *)
(* catalogue: the images obey the laws of a group action and preserve           *)
(* membership; each is emitted as a scenario.  Mode "sim": random histories.    *)
EXTENDS Ellipse, Json
CONSTANTS Mode, Stride, Off, D
VARIABLES st, hist, np, g
vars == <<st, hist, np, g>>
Rn(a, b) == RandomElement(a..b)
\* row by row
Maps == << <<1,0,0, 0,1,0, 0,0,1>>, <<1,0,3, 0,1,-2, 0,0,1>>, <<0,-1,0, 1,0,0, 0,0,1>>, <<3,-4,0, 4,3,0, 0,0,5>>, <<2,0,0, 0,1,0, 0,0,1>>,
           <<1,0,0, 0,3,0, 0,0,1>>, <<1,1,0, 0,1,0, 0,0,1>>, <<-1,0,1, 0,1,0, 0,0,1>>, <<1,2,1, -1,1,0, 0,0,1>>, <<1,0,0, 0,1,0, 0,0,2>>,
           <<-3,-4,10, 4,-3,5, 0,0,5>>, <<0,1,0, 1,0,0, 0,0,1>>, <<2,0,0, 0,2,0, 0,0,-1>>, <<1,0,0, 0,1,0, 1,0,10>>, <<1,0,1, 0,2,0, 0,1,12>>, <<2,1,0, 0,1,1, 1,-1,15>> >>
Affine(h) == h[7] = 0 /\ h[8] = 0
Mul(g1, h) == LET c(i,j) == g1[3*i+1]*h[j+1] + g1[3*i+2]*h[j+4] + g1[3*i+3]*h[j+7] IN << c(0,0),c(0,1),c(0,2),c(1,0),c(1,1),c(1,2),c(2,0),c(2,1),c(2,2) >>
Adj(h) == << h[5]*h[9]-h[6]*h[8], h[3]*h[8]-h[2]*h[9], h[2]*h[6]-h[3]*h[5],
             h[6]*h[7]-h[4]*h[9], h[1]*h[9]-h[3]*h[7], h[3]*h[4]-h[1]*h[6],
             h[4]*h[8]-h[5]*h[7], h[2]*h[7]-h[1]*h[8], h[1]*h[5]-h[2]*h[4] >>
App(h, p) == << h[1]*p[1]+h[2]*p[2]+h[3]*p[3], h[4]*p[1]+h[5]*p[2]+h[6]*p[3], h[7]*p[1]+h[8]*p[2]+h[9]*p[3] >>
Base == { << cx, cy, m, n, md, k >> : cx \in {0, 3}, cy \in {0, -2}, m \in {1,2,4}, n \in {1,2,3}, md \in {1,2}, k \in {0,1,2,4,5,6,9} }

(*------------------------------ random histories --------------------------*)
C(z) == Rn(-8, 8)
I(z) == Rn(1, 3)
Mp(z) == IF Rn(0, 3) = 0
         THEN << Rn(-3,3), Rn(-3,3), Rn(-6,6), Rn(-3,3), Rn(-3,3), Rn(-6,6), 0, 0, Rn(1,2) >>
         ELSE Maps[Rn(1, Len(Maps))]
Good(h) == IF DetH(h) = 0 THEN Maps[3] ELSE h
WOp(k, z) ==
  CASE k \in {0,1,2} -> <<"new", I(z), Rn(0,6), C(z), C(z), Rn(1,6), Rn(1,6), Rn(1,2), Rn(0,11)>>
    [] k = 3 -> <<"cir", I(z), Rn(0,1), C(z), C(z), Rn(1,5)>>
    [] k = 4 -> <<"cp", I(z), I(z), Rn(0,3)>>
    [] k = 5 -> <<"tr", I(z), Rn(0,3), C(z), C(z)>>
    [] k = 6 -> <<"mv", I(z), Rn(0,3), C(z), C(z)>>
    [] k \in {7,8,9} -> <<"hom", I(z), I(z), Rn(0,2)>> \o Good(Mp(z))
    [] OTHER -> <<"hci", I(z), C(z), C(z), Rn(1,5), Rn(0,2)>> \o Good(Mp(z))
Qu(k, z) ==
  CASE k \in {0,1,2} -> <<"pin", I(z), Rn(-16,16), Rn(-16,16), Rn(1,2)>>
    [] k = 3 -> <<"pim", I(z), Rn(-12,12), Rn(-12,12), Rn(1,2)>> \o Good(Mp(z))
    [] k = 4 -> <<"sca", I(z), Rn(-3,4)>>
    [] OTHER -> <<"eq", I(z), I(z)>>
Ev(o) == [ op |-> o[1], a |-> Tail(o), r |-> "ok" ]
Near2(z) == IF ~Known(z) THEN <<0,0>> ELSE << z.x \div z.w, z.y \div z.w >>
\* a point close to the ellipse
PinNear(i, z) == LET c == Near2(st.e[i]) IN <<"pin", i, 2*c[1] + Rn(-9,9), 2*c[2] + Rn(-9,9), 2>>
SimNext == /\ np < D
           /\ \E o \in { WOp(Rn(0,10), np) } : \E q1 \in { Qu(Rn(0,5), 1) } : \E q2 \in { PinNear(Rn(1,3), 2) } :
                /\ st' = Apply(st, Ev(o))
                /\ hist' = hist \o << o, <<"obs", o[2], Rn(0,1)>>, q1, q2, <<"eq", o[2], I(np)>> >>
                /\ np' = np + 1 /\ g' = g

(*------------------------------ enumeration -------------------------------*)
Init == st = InitSt /\ hist = << <<"begin">> >> /\ np = 0 /\ g = <<>>
Next == IF Mode = "sim" THEN SimNext
        ELSE /\ np < 3
             /\ IF np = 0 THEN \E b \in Base : g' = << b >>
                ELSE \E i \in 1..Len(Maps) : g' = Append(g, i)
             /\ np' = np + 1 /\ UNCHANGED <<st, hist>>
Spec == Init /\ [][Next]_vars
Hash == ((g[1][1] * 31 + g[1][2] * 17 + g[1][3] * 7 + g[1][4] * 5 + g[1][5] * 3 + g[1][6]) * 41 + g[2] * 19 + g[3] * 3) % 10007
Z0 == LET b == g[1] IN Build(b[1], b[2], 1, b[3], b[4], b[5], b[6])
Scen(z) ==
  LET b == g[1] h == Hash IN
  << <<"begin">>, <<"new", 1, IF h % 2 = 0 THEN 3 ELSE 5>> \o b, <<"obs", 1, h % 2>>, <<"pin", 1, b[1] + 1, b[2], 1>>, <<"pin", 1, 2*b[1] + 1, 2*b[2] - 1, 2>>,
     <<"hom", 2, 1, h % 3>> \o Maps[g[2]], <<"obs", 2, h % 2>>, <<"eq", 1, 2>>, <<"hom", 3, 2, (h \div 3) % 3>> \o Maps[g[3]], <<"obs", 3, (h+1) % 2>>, <<"eq", 2, 3>>, <<"eq", 3, 1>>,
     <<"pim", 1, 2*b[1] + (h % 7) - 3, 2*b[2] + ((h \div 7) % 7) - 3, 2>> \o Maps[g[2]], <<"pin", 2, h % 5, (h \div 5) % 5, 1>>, <<"pin", 3, h % 5, (h \div 5) % 5, 2>>,
     <<"cp", 2, 3, h % 4>>, <<"eq", 2, 3>>, <<"tr", 2, h % 4, 2, -1>>, <<"obs", 2, 0>>, <<"obs", 3, 0>>, <<"eq", 2, 3>>, <<"sca", 3, (h % 8) - 3>>, <<"mv", 3, (h \div 4) % 4, 1, 2>>, <<"obs", 3, 1>> >>
Emit == IF Mode = "sim" THEN np = D => PrintT(ToJson(hist))
        ELSE (np = 3 /\ Hash % Stride = Off) => PrintT(ToJson(Scen(1)))
Val(z) == [ z EXCEPT !.q = 0 ]
Laws ==
  /\ (Mode = "enum" /\ np = 2) =>
       LET z == Z0  h == Maps[g[2]]  y == Img(z, h) IN
       (Known(z) /\ Known(y)) =>
         /\ (Known(Img(y, Adj(h))) => Val(Img(y, Adj(h))) = Val(z))                       \* the inverse map brings it back
         /\ (Affine(h) => LET c == App(h, <<z.x, z.y, z.w>>) IN c[1]*y.w = y.x*c[3] /\ c[2]*y.w = y.y*c[3])       \* affine maps keep the centre
         /\ (Circ(z) /\ g[2] \in {1,2,3,4,8,10,11,12,13} => Circ(y))                      \* similarities keep circles
         \* membership goes with the map (half-integer points around)
         /\ \A u \in -2..2 : \A v \in -2..2 :
              LET p == << 2*g[1][1] + 3*u, 2*g[1][2] + 2*v, 2 >>  q == App(h, p)
                  s == Side(z, p[1], p[2], 2)
              IN (q[3] # 0 /\ s # 9 /\ Side(y, q[1], q[2], q[3]) # 9) => (s = -1 <=> Side(y, q[1], q[2], q[3]) = -1)
  /\ (Mode = "enum" /\ np = 3) =>
       LET z == Z0  h == Maps[g[2]]  k == Maps[g[3]]  y == Img(Img(z, h), k)  x == Img(z, Mul(k, h)) IN
       (Known(z) /\ Known(x) /\ Known(y)) => Val(x) = Val(y)                              \* composition
Sound == \A i \in Slots : LET z == st.e[i] IN Known(z) => (Det(z) > 0 /\ z.a > 0 /\ z.c > 0 /\ Gcd3(z.x, z.y, z.w) = 1)
=============================================================================
