------------------------------- MODULE PrintMC ------------------------------
(* Mode "enum": every kind of object with small coordinates, every format; Mode   *)
(* "sim": histories over five slots.                                               *)
EXTENDS Print, Json
CONSTANTS Mode, Stride, Off, D
VARIABLES h, g
vars == <<h, g>>
Rn(a, b) == RandomElement(a..b)
Na(k) == << 2, 4, 4, 4, 3, 4, 5, 6, 6, 4, 0, 0, 2 >>[k]
Vals == << 0, 1, -3, 40, 1234 >>
Dig(x, i) == Vals[1 + ((x \div << 1, 5, 25, 125, 625, 3125 >>[i]) % 5)]
Args(k, x) == [ i \in 1..Na(k) |-> IF k = 7 /\ i < 3 THEN Min2(Dig(x, i), 47) ELSE IF k = 7 /\ i \in {3, 4} THEN Min2(Abs(Dig(x, i)), 50) + 2 * i ELSE IF k = 7 /\ i = 5 THEN x % 4 ELSE IF k = 10 /\ i > 2 THEN Abs(Dig(x, i)) + 2 ELSE Dig(x, i) ]
Fmt == << <<0,0>>, <<0,1>>, <<0,2>>, <<3,0>>, <<3,1>>, <<3,2>>, <<10,0>>, <<10,2>> >>
RArgs(k) == LET big == TLCEval(Rn(0, 3)) IN
            [ i \in 1..(IF k \in {8, 9} THEN 2 * Rn(2, 6) ELSE Na(k)) |-> IF (k = 7 /\ i \in {3, 4}) \/ (k = 10 /\ i > 2) \/ (k = 5 /\ i = 3) THEN Rn(1, 60) ELSE IF k = 7 /\ i = 5 THEN Rn(-3, 4) ELSE IF big = 0 /\ k # 7 THEN Rn(-9000, 9000) ELSE Rn(-60, 60) ]
RF(z) == Fmt[Rn(1, 8)]
ROp(z) == LET c == TLCEval(Rn(1, 12))  s == TLCEval(Rn(0, 4)) IN
       CASE c <= 4 -> LET k == TLCEval(<< 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 5, 6, 8 >>[Rn(1, 18)])  v == TLCEval(RArgs(k)) IN
                      IF Valid(k, << s, k >> \o v) THEN <<"mk", s, k>> \o v ELSE <<"prn", s, 0, 0, 0>>
         [] c = 5 -> <<"mv", s, Rn(-40, 40), Rn(-40, 40)>>
         [] c = 6 -> <<"cmp", s, Rn(0, 4)>>
         [] c = 7 -> <<"lst", s>> \o RF(s) \o <<Rn(0, 2), Rn(0, 2)>>
         [] c = 8 -> <<"par", s>> \o RF(s) \o <<Rn(0, 4)>>
         [] c = 9 -> <<"itx", s>> \o RF(s) \o <<Rn(0, 4)>>
         [] c = 10 /\ s = 0 -> <<"dpr", 0>> \o RF(s) \o <<Rn(1, 9), Rn(1, 9), Rn(5, 40), Rn(0, 255), Rn(0, 255), Rn(0, 255), Rn(0, 1)>>
         [] OTHER -> <<"prn", s>> \o RF(s) \o <<Rn(0, 1)>>
Init == h = << <<"begin">> >> /\ g \in (IF Mode = "enum" THEN { << k, x >> : k \in 1..13, x \in { y \in 0..15624 : y % Stride = Off } } ELSE { << 0, 0 >> })
Dup == << 1, 25, 625, 625, 625, 125, 625, 3125, 15625, 15625, 625, 1, 1, 25 >>
Used == Mode = "sim" \/ (g[2] < Dup[g[1] + 1] /\ Valid(g[1], << 0, g[1] >> \o Args(g[1], g[2])))
Next == /\ Mode = "sim" /\ Len(h) < D + 1 /\ g' = g
        /\ \E o \in { ROp(Len(h)) } : h' = Append(h, o)
Spec == Init /\ [][Next]_vars
F8(i) == Fmt[1 + ((g[2] + i) % 8)]
Emit == IF Mode = "enum"
        THEN Used => PrintT(ToJson(<< <<"begin">>, <<"mk", 0, g[1]>> \o Args(g[1], g[2]), <<"mk", 1, 1, 4, 9>>, <<"prn", 0>> \o F8(0) \o <<0>>, <<"prn", 0>> \o F8(3) \o <<1>>,
                              <<"lst", 0>> \o F8(1) \o << g[2] % 3, 1 >>, <<"mv", 0, 5, -6>>, <<"cmp", 0, 0>>, <<"prn", 0>> \o F8(5) \o <<g[2] % 2>>,
                              <<"mk", 2, 6, -20, -20, 35, 30>>, <<"itx", 0>> \o F8(2) \o << 2 >>, <<"mk", 3, 5, 0, 0, 41>>, <<"itx", 0>> \o F8(4) \o << 3 >>, <<"par", 0>> \o F8(6) \o << g[2] % 2 >> >>))
        ELSE Len(h) = D + 1 => PrintT(ToJson(h))
\* an object shows itself, and not another one
Own(o) == CASE o[1] = 1 -> Pm(o[2]) [] o[1] \in {4, 5} -> [ i \in 1..Len(o[2]) |-> M(o[2][i]) ] [] o[1] \in {8, 9} -> FlattenSeq([ i \in 1..Len(o[2]) |-> Pm(o[2][i]) ]) [] OTHER -> <<>>
Laws == (Mode = "enum" /\ Used) =>
  LET o == Obj(g[1], << 0, g[1] >> \o Args(g[1], g[2])) IN
  o[1] \in {1, 4, 5, 8, 9} => /\ Shows(o, Own(o))
                              /\ (g[1] \notin {11, 12} => ~Shows(Shifted(o, <<5, -6>>), Own(o)))
                              /\ Shows(Shifted(o, <<5, -6>>), Own(Shifted(o, <<5, -6>>)))
                              /\ CloseQ(Own(o), Own(o), 3, 0)
=============================================================================
