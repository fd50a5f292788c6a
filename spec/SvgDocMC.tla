------------------------------ MODULE SvgDocMC ------------------------------
(* Mode "enum": every element with every spelling of every attribute, one or two *)
(* at a time, between two other shapes; Mode "sim": random documents.              *)
EXTENDS SvgDoc, Json
CONSTANTS Mode, Stride, Off, D
VARIABLES h, g
vars == <<h, g>>
Rn(a, b) == RandomElement(a..b)
Fmts == << 0, 1, 2, 3, 4, 5, 6, 10, 11, 12 >>
Vals == << 0, 4, 8, -6, 41, 10, -40, 3, 12, 27, 100 >>
W(i) == Vals[1 + (i % 11)]
P(i) == << 4, 8, 10, 3, 12, 27, 40, 1 >>[1 + (i % 8)]
\* the attributes of an element: kinds of values (1: any, 2: a size)
Att == << <<1,1,2>>, <<1,1,2,2>>, <<1,1,1,1>>, <<1,1,2,2>> >>
Pairs(k, f(_), v(_)) == [ i \in 1..2*Len(Att[k]) |-> IF i % 2 = 1 THEN f((i+1) \div 2) ELSE v(i \div 2) ]
Fig(k, how, f(_), v(_), t) == << k, how >> \o Pairs(k, f, v) \o (IF k = 4 THEN t ELSE <<>>)
Lst(k, how, pre, sep, fs, vs) == << k, how >> \o pre \o << sep, Len(vs) >> \o [ i \in 1..2*Len(vs) |-> IF i % 2 = 1 THEN fs[(i+1) \div 2] ELSE vs[i \div 2] ]
Enum1 == { << k, j1, f1, j2, f2, w >> : k \in 1..4, j1 \in 1..4, f1 \in 1..10, j2 \in 1..4, f2 \in 1..10, w \in 0..1 }
Val(k, j, w) == IF Att[k][j] = 2 THEN P(2*w + j) ELSE W(3*w + 2*j)
E1(x) == Fig(x[1], (x[2] + x[3] + x[6]) % 3, LAMBDA j : IF j = x[2] THEN Fmts[x[3]] ELSE IF j = x[4] THEN Fmts[x[5]] ELSE 0, LAMBDA j : Val(x[1], j, x[6]), << IF x[6] = 0 THEN 0 ELSE 1, 90 * (x[3] % 5), 8, 4 >>)
Ok1(x) == x[2] <= Len(Att[x[1]]) /\ x[4] <= Len(Att[x[1]])
\* lists: n values, separator, closing, one value of another format at m
PtV == << 0, 0, 40, 0, 40, 20, 8, 25, -12, 9 >>
EnumL == { << k, n, sep, sh, m, f >> : k \in 5..7, n \in 0..9, sep \in 0..7, sh \in 0..3, m \in 1..9, f \in {0, 1, 5, 10} }
OkL(x) == (x[6] = 0 => x[5] = 1) /\ x[5] <= Max2(1, x[2]) /\ (x[1] = 7 => x[3] \notin {3, 6})
EL(x) == LET n == x[2]
             vs == [ i \in 1..n |-> IF x[4] = 1 /\ i > n - 2 /\ n >= 4 THEN PtV[i - (n - 2)] ELSE IF x[4] = 2 /\ i \in 3..4 THEN PtV[i - 2] ELSE PtV[i] ]
             fs == [ i \in 1..n |-> IF i = x[5] THEN x[6] ELSE 0 ]
         IN Lst(x[1], (n + x[3]) % 3, IF x[1] = 7 THEN << 1, (x[4] + x[3]) % 2 >> ELSE << IF x[4] = 3 /\ x[3] = 0 THEN 0 ELSE 1 >>, x[3], fs, vs)
\* transformations of ellipses
EnumT == { << t, d, r, w >> : t \in 0..12, d \in {0, 90, 180, 270, -90, 360, -180}, r \in 0..2, w \in 0..2 }
ET(x) == << 4, x[4], 0, W(x[4]), 0, W(x[4]+3), 0, << 8, 20, 12 >>[1 + x[3]], 0, << 20, 8, 12 >>[1 + x[3]], x[1], x[2], W(x[3]+x[4]), W(2*x[3]) >>
Hash(x) == FoldLeft(LAMBDA a, y : (a * 41 + y + 50) % 60013, 7, x)
EnumAll == { E1(x) : x \in { y \in Enum1 : Ok1(y) } } \cup { EL(x) : x \in { y \in EnumL : OkL(y) } } \cup { ET(x) : x \in EnumT } \cup { << 8, how, i >> : how \in 0..2, i \in 0..5 }
C0 == << 1, 0, 0, 4, 0, 8, 0, 12 >>   R0 == << 2, 0, 0, 4, 0, 4, 0, 8, 0, 40 >>
\* a random element; odd: one of b attributes is spelled in another way
RFmt(b) == IF Rn(1, b) > 1 THEN << 0, 0, 0, 1, 5, 2 >>[Rn(1, 6)] ELSE Fmts[Rn(1, 10)]
RFig(b) == LET k == Rn(1, 4)  n == Len(Att[k])
               fs == [ j \in 1..n |-> RFmt(b) ]  vs == [ j \in 1..n |-> IF Att[k][j] = 2 /\ Rn(1, 25) > 1 THEN Rn(1, 200) ELSE Rn(-200, 400) ]
           IN Fig(k, Rn(0, 2), LAMBDA j : fs[j], LAMBDA j : vs[j], << IF Rn(1, b) > 1 THEN Rn(0, 1) ELSE Rn(0, 12), 90 * Rn(-4, 4), Rn(-100, 100), Rn(-100, 100) >>)
RLst(b) == LET k == Rn(5, 7)  m == 2 * Rn(1, 8)  n == IF Rn(1, b) = 1 THEN Rn(0, 9) ELSE m
               v0 == TLCEval([ i \in 1..n |-> IF Rn(0, 3) = 0 THEN Rn(0, 8) ELSE Rn(-200, 400) ])
               cl == TLCEval(n >= 6 /\ Rn(0, 2) = 0)
               vs == [ i \in 1..n |-> IF cl /\ i = n - 1 THEN v0[1] ELSE IF cl /\ i = n THEN v0[2] ELSE v0[i] ]
               fs == [ i \in 1..n |-> IF Rn(1, 6*b) = 1 THEN 10 ELSE << 0, 0, 1, 5 >>[Rn(1, 4)] ]
           IN Lst(k, Rn(0, 2), IF k = 7 THEN << IF Rn(1, 2*b) = 1 THEN 0 ELSE 1, Rn(0, 1) >> ELSE << IF Rn(1, 2*b) = 1 THEN 0 ELSE 1 >>,
                  IF Rn(1, b) > 1 THEN << 0, 7 >>[Rn(1, 2)] ELSE << 1, 2, 4, 5 >>[Rn(1, 4)], fs, vs)
RRoot(b) == << Rn(0, 2), RFmt(b), Rn(1, 4000), RFmt(b), Rn(1, 4000) >>
ROp(b) == LET c == Rn(1, 20) IN
          CASE c <= 7 -> <<"el">> \o RFig(b)
            [] c <= 13 -> <<"el">> \o RLst(b)
            [] c = 14 -> <<"el", 8, Rn(0, 2), Rn(0, 5)>>
            [] c = 15 -> << <<"opn">>, <<"cls">> >>[Rn(1, 2)]
            [] c = 16 -> <<"root">> \o RRoot(IF b < 50 THEN b ELSE 4)
            [] c = 17 -> <<"size">>
            [] c = 18 -> << <<"acc">>, <<"acc">>, <<"prn">> >>[Rn(1, 3)]
            [] OTHER -> <<"imp">>
Init == h = << <<"begin">> >> /\ g \in (IF Mode = "enum" THEN { x \in EnumAll : Hash(x) % Stride = Off } ELSE { <<7>>, <<25>>, <<1000>> })
Next == /\ Mode = "sim" /\ Len(h) < D + 1 /\ g' = g
        /\ \E o \in { ROp(g[1]) } : h' = Append(h, o)
Spec == Init /\ [][Next]_vars
Emit == IF Mode = "enum"
        THEN PrintT(ToJson(<< <<"begin">>, <<"el">> \o C0, <<"el">> \o g, <<"el">> \o R0, <<"root", 0, 0, 1200, 0, 800>>, <<"imp">>, <<"acc">>, <<"size">> >>
             \o (IF Hash(g) % 7 = 0 THEN << <<"prn">>, <<"non", Hash(g) % 3>>, <<"el">> \o R0, <<"acc">> >> ELSE <<>>)))
        ELSE Len(h) = D + 1 => PrintT(ToJson(h \o << <<"imp">>, <<"size">> >>))
\* what the spelling cannot change
Norm(e) == IF e[1] \in 1..4 THEN [ i \in DOMAIN e |-> IF i = 2 THEN 0 ELSE IF i % 2 = 1 /\ i >= 3 /\ i < 3 + 2 * Len(Att[e[1]]) /\ e[i] \in Plain THEN 0 ELSE e[i] ]
           ELSE IF e[1] = 8 THEN e
           ELSE LET at == IF e[1] = 7 THEN 5 ELSE 4 IN [ i \in DOMAIN e |-> IF i = 2 THEN 0 ELSE IF i > at + 1 /\ (i - at) % 2 = 0 /\ e[i] \in Plain THEN 0 ELSE e[i] ]
Laws == Mode = "enum" =>
  LET m == Meaning(g) IN
  /\ m.alts # {}
  /\ m = Meaning(Norm(g))
  /\ <<>> \in m.alts \/ ~m.thr                                 \* a refused element delivers nothing
  /\ \A x \in m.alts : LET c == CHOOSE y \in Circ(C0).alts : TRUE  r == CHOOSE y \in Rect(R0).alts : TRUE  any == Len(x) = 1 /\ x[1].k = "Any" IN
       any \/ /\ Delivered(<< C0, g, R0 >>, c \o x \o r, 0, TRUE)
              /\ (Len(x) = 1 /\ x[1].k # "FRect" => ~Delivered(<< C0, g, R0 >>, c \o r \o x, 0, TRUE))        \* the order of the document is kept
              /\ (~m.thr => ~Delivered(<< C0, g, R0 >>, c, 0, FALSE))
=============================================================================
