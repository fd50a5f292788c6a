------------------------------ MODULE SvgPathMC -----------------------------
(* Mode "enum": every sequence of up to N drawing items after a move, in         *)
(* several spellings, which must all read the same, and the same as its absolute *)
(* counterpart; Mode "sim": random, possibly ill-formed strings.                 *)
EXTENDS SvgPath, Json
CONSTANTS Mode, N, Stride, Off, D
VARIABLES g, s
vars == <<g, s>>
Rn(a, b) == RandomElement(a..b)
Digs(n) == LET RECURSIVE F(_) F(k) == IF k < 10 THEN << 48 + k >> ELSE Append(F(k \div 10), 48 + (k % 10)) IN F(n)
\* a value in hundredths, written in a style
Two(f) == << 48 + f \div 10, 48 + (f % 10) >>
NumStr(v, sty) ==
  LET n == Abs(v)  ip == n \div 100  fr == n % 100
      body == CASE sty = 0 -> IF fr = 0 THEN Digs(ip) ELSE Digs(ip) \o <<Dot>> \o Two(fr)
                [] sty = 1 -> Digs(ip) \o <<Dot>> \o Two(fr)
                [] sty = 2 -> IF ip = 0 THEN <<Dot>> \o Two(fr) ELSE IF fr = 0 THEN Digs(ip) \o <<Dot>> ELSE Digs(ip) \o <<Dot>> \o Two(fr)
                [] sty = 3 -> Digs(n) \o << 101, Minus, 50 >>
                [] sty = 4 -> Digs(ip) \o <<Dot>> \o Two(fr) \o << 69, 48 >>
                [] sty = 5 -> <<48>> \o Digs(ip) \o <<Dot>> \o Two(fr) \o <<48>>
                [] OTHER -> <<Dot>> \o (IF ip < 10 THEN <<48>> ELSE <<>>) \o Digs(ip) \o Two(fr) \o << 101, Plus, 50 >>
  IN IF v < 0 THEN <<Minus>> \o body ELSE IF sty = 5 THEN <<Plus>> \o body ELSE body
\* a spelled token list: tokens <<0, code>> and <<1, value>>; the styles come from a hash
Sep == << <<32>>, <<44>>, <<32,44,32>>, <<10>>, <<9>>, <<32,32>>, <<13,10>> >>
Rend(ts, h0) ==
  LET f(a, t) ==
        LET h == (a.h * 75 + 74) % 65537
            str == IF t[1] = 0 THEN << t[2] >> ELSE NumStr(t[2], (h \div 8) % 7)
            plus == t[1] = 1 /\ str[1] \in {Minus, Plus}
            glue == a.o = <<>> \/ t[1] = 0 \/ a.cmd \/ plus \/ (str[1] = Dot /\ a.dot)
        IN [ h |-> h, cmd |-> t[1] = 0, dot |-> t[1] = 1 /\ (\E i \in 1..Len(str) : str[i] = Dot \/ IsE(str[i])),
             o |-> a.o \o (IF glue /\ (h \div 64) % 3 # 0 THEN <<>> ELSE Sep[1 + ((h \div 256) % 7)]) \o str ]
  IN FoldLeft(f, [ h |-> h0, cmd |-> FALSE, dot |-> FALSE, o |-> <<>> ], ts).o
\* items: <<command, number of groups>>
Cmds == << 77, 109, 76, 108, 72, 104, 86, 118, 90, 122 >>
Items == { << Cmds[i], k >> : i \in 1..8, k \in {1, 2} } \cup { << 90, 0 >>, << 122, 0 >> }
ValAt(i) == << 0, 100, -250, 300, 25, 0, -100, 1000, 100, -5, 0 >>[1 + (i % 11)]
Hash == FoldLeft(LAMBDA h, x : (h * 41 + x[1] * 3 + x[2]) % 60013, 7, g)
\* the tokens of the items, values from a running index
Toks(q, i0) ==
  LET f(a, it) == LET n == it[2] * Nb(Up(it[1])) IN
        [ i |-> a.i + n + 1, o |-> a.o \o << <<0, it[1]>> >> \o [ j \in 1..n |-> << 1, ValAt(a.i + j) >> ] ]
  IN FoldLeft(f, [ i |-> i0, o |-> <<>> ], q).o
Full(q) == Toks(<< << IF Hash % 2 = 0 THEN 77 ELSE 109, 1 + (Hash % 3) >> >> \o q, Hash % 11)
\* the same path with absolute commands only: the points themselves
Init == g = <<>> /\ s = <<>>
Next ==
  IF Mode = "enum" THEN Len(g) < N /\ (\E it \in Items : g' = Append(g, it)) /\ s' = s
  ELSE /\ Len(g) < D
       /\ \E it \in { LET k == Rn(1, 14) IN IF k <= 10 THEN << Cmds[k], IF k >= 9 THEN 0 ELSE Rn(1, 3) >> ELSE << Cmds[Rn(1, 8)], 1 >> } : g' = Append(g, it)
       /\ s' = IF Len(g) + 1 < D THEN s
               ELSE LET ts0 == Toks(<< << IF Rn(0,1) = 0 THEN 77 ELSE 109, Rn(1, 2) >> >> \o g, Rn(0, 10))
                        ts1 == [ i \in 1..Len(ts0) |-> IF ts0[i][1] = 1 /\ Rn(0,2) = 0 THEN << 1, Rn(-3000, 3000) >> ELSE ts0[i] ]
                        j == Rn(1, Len(ts1))
                        k == Rn(0, 11)
                        ts == CASE k = 0 -> SubSeq(ts1, 1, j - 1) \o SubSeq(ts1, j + 1, Len(ts1))               \* a token lost
                                [] k = 1 -> SubSeq(ts1, 1, j) \o << << 0, RandomElement({67, 99, 83, 113, 84, 97, 65, 120, 66, 35, 59, 101}) >> >> \o SubSeq(ts1, j + 1, Len(ts1))
                                [] k = 2 -> SubSeq(ts1, 1, j) \o << << 1, Rn(-300, 300) >> >> \o SubSeq(ts1, j + 1, Len(ts1))
                                [] OTHER -> ts1
                        o == Rend(ts, Rn(0, 65536))
                        p == Rn(1, Len(o))
                    IN CASE k = 3 -> SubSeq(o, 1, p - 1) \o SubSeq(o, p + 1, Len(o))                            \* a character lost
                         [] k = 4 -> SubSeq(o, 1, p) \o << RandomElement({Minus, Plus, Dot, 101, 44, 32}) >> \o SubSeq(o, p + 1, Len(o))
                         [] k = 5 -> <<32>> \o o \o <<32, 10>>
                         [] OTHER -> o
Spec == Init /\ [][Next]_vars
Two2(str) == << <<"begin">>, <<"path">> \o str, <<"imp">> \o str >>
Emit == IF Mode = "sim" THEN Len(g) = D => PrintT(ToJson(Two2(s)))
        ELSE (Len(g) > 0 /\ Hash % Stride = Off) =>
               PrintT(ToJson(<< <<"begin">>, <<"path">> \o Rend(Full(g), Hash), <<"path">> \o Rend(Full(g), Hash * 7 + 1), <<"imp">> \o Rend(Full(g), Hash * 3 + 2) >>))
\* absolute spelling of what was read: M for the first point of a sub-path, L for the others
Abs1(rd) == FoldLeft(LAMBDA a, q : a \o FlattenSeq([ i \in 1..Len(q) |-> << << 0, IF i = 1 THEN 77 ELSE 76 >>, << 1, q[i][1] \div 100 >>, << 1, q[i][2] \div 100 >> >> ]), <<>>, rd.subs)
Laws == (Mode = "enum" /\ Len(g) > 0) =>
  LET ts == Full(g)  a == Read(Rend(ts, Hash))  b == Read(Rend(ts, Hash * 13 + 5))
      lx == Lex(Rend(ts, Hash), 1, <<>>)
  IN /\ a = b                                                                    \* spelling does not matter
     /\ Len(lx) = Len(ts) /\ \A i \in 1..Len(ts) : lx[i].v = (IF ts[i][1] = 0 THEN ts[i][2] ELSE ts[i][2] * 100)
     /\ a.r = "ok"
     /\ a.z = (Up(Last(g)[1]) = LZ)
     /\ Read(Rend(Abs1(a), 3)).subs = a.subs                                     \* absolute and relative agree
     /\ \A i \in 1..Len(a.subs) : \A j \in 1..(Len(a.subs[i]) - 1) : a.subs[i][j] # a.subs[i][j+1]
=============================================================================
