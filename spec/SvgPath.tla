------------------------------- MODULE SvgPath ------------------------------
(***************************************************************************)
(* How a path string is read.  A string is a sequence of character codes.    *)
(* Lexer: white space and commas separate; a letter is a command; a number     *)
(* ends where it cannot be continued.  Interpreter: current command, current   *)
(* point, list of sub-paths.  Coordinates are in fixed point S.                *)
(***************************************************************************)
EXTENDS Geom
InitSt == [ x |-> 0 ]
IsWs(c) == c \in {9, 10, 11, 12, 13, 32, 44}
IsDig(c) == c >= 48 /\ c <= 57
Dot == 46  Minus == 45  Plus == 43
IsE(c) == c \in {69, 101}
IsNumStart(c) == IsDig(c) \/ c \in {Dot, Minus, Plus}

(*-------------------------------- lexer -----------------------------------*)
\* the longest number starting at i: index of its last character
RECURSIVE NumEnd(_,_,_,_,_)
NumEnd(s, i, first, dot, ex) ==
  IF i > Len(s) THEN i - 1
  ELSE LET c == s[i]  afterE == ~first /\ IsE(s[i-1]) IN
       IF IsDig(c) THEN NumEnd(s, i+1, FALSE, dot, ex)
       ELSE IF c \in {Minus, Plus} THEN (IF first \/ afterE THEN NumEnd(s, i+1, FALSE, dot, ex) ELSE i - 1)
       ELSE IF c = Dot THEN (IF dot \/ ex THEN i - 1 ELSE NumEnd(s, i+1, FALSE, TRUE, ex))
       ELSE IF IsE(c) THEN (IF ex THEN i - 1 ELSE NumEnd(s, i+1, FALSE, dot, TRUE))
       ELSE i - 1
RECURSIVE Digits(_,_,_)
Digits(s, i, acc) == IF i > Len(s) \/ ~IsDig(s[i]) THEN << i, acc >> ELSE Digits(s, i+1, Append(acc, s[i] - 48))
Val(ds) == FoldLeft(LAMBDA a, d : IF a > 20000000 THEN a ELSE 10*a + d, 0, ds)
Pow10(k) == FoldLeft(LAMBDA a, d : a * 10, 1, [ i \in 1..k |-> 0 ])
\* a number token: [ok: well formed, v: value at S, big: too large to be followed]
Number(s) ==
  LET sg == IF s[1] \in {Minus, Plus} THEN 2 ELSE 1
      neg == s[1] = Minus
      ip == Digits(s, sg, <<>>)
      hasDot == ip[1] <= Len(s) /\ s[ip[1]] = Dot
      fp == IF hasDot THEN Digits(s, ip[1] + 1, <<>>) ELSE << ip[1], <<>> >>
      hasE == fp[1] <= Len(s) /\ IsE(s[fp[1]])
      esg == IF hasE /\ fp[1] < Len(s) /\ s[fp[1]+1] \in {Minus, Plus} THEN 1 ELSE 0
      eneg == esg = 1 /\ s[fp[1]+1] = Minus
      ep == IF hasE THEN Digits(s, fp[1] + 1 + esg, <<>>) ELSE << fp[1], <<>> >>
      ok == Len(ip[2]) + Len(fp[2]) > 0 /\ ep[1] = Len(s) + 1 /\ (hasE => Len(ep[2]) > 0)
      m == Val(ip[2] \o fp[2])
      x == 4 - Len(fp[2]) + (IF eneg THEN -Val(ep[2]) ELSE Val(ep[2]))       \* value = m * 10^x at S
      small == Len(ip[2]) + Len(fp[2]) <= 9 /\ Len(ep[2]) <= 2 /\ x >= -8 /\ x <= 8
      big == ~small \/ (x > 0 /\ m > 200000000 \div Pow10(x))
      v == IF big THEN 0 ELSE IF x >= 0 THEN m * Pow10(x) ELSE m \div Pow10(-x)
  IN [ ok |-> ok, v |-> IF neg THEN -v ELSE v, big |-> big \/ v > 200000000 ]
\* tokens: [k: "c" command, "n" number, "x" malformed number; v]
RECURSIVE Lex(_,_,_)
Lex(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF IsWs(s[i]) THEN Lex(s, i+1, acc)
  ELSE IF ~IsNumStart(s[i]) THEN Lex(s, i+1, Append(acc, [ k |-> "c", v |-> s[i] ]))
  ELSE LET j == NumEnd(s, i, TRUE, FALSE, FALSE)
           n == Number(SubSeq(s, i, j))
       IN Lex(s, j+1, Append(acc, IF ~n.ok THEN [ k |-> "x", v |-> 0 ] ELSE IF n.big THEN [ k |-> "b", v |-> 0 ] ELSE [ k |-> "n", v |-> n.v ]))

(*------------------------------ interpreter -------------------------------*)
\* upper case letter of a command
Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
LM == 77  LL == 76  LH == 72  LV == 86  LZ == 90
Nb(c) == CASE c \in {LM, LL} -> 2 [] c \in {LH, LV} -> 1 [] OTHER -> 0
\* m: [c: command, rel, vals: values of the current group, got: a group was completed since the command,
\*     subs: finished and current sub-paths, cur: current point, res: "run" | "refuse" | "open"]
P0 == [ c |-> LM, rel |-> FALSE, vals |-> <<>>, got |-> FALSE, any |-> FALSE, subs |-> << <<>> >>, cur |-> <<0,0>>, res |-> "run" ]
PutPt(m, p) == [ m EXCEPT !.subs[Len(m.subs)] = Append(@, p), !.cur = p, !.vals = <<>>, !.got = TRUE ]
Group(m) ==       \* the values of a complete group
  LET v == m.vals  b == IF m.rel THEN m.cur ELSE <<0,0>>
  IN PutPt(m, CASE m.c \in {LM, LL} -> << b[1] + v[1], b[2] + v[2] >>
                [] m.c = LH -> << b[1] + v[1], m.cur[2] >>
                [] OTHER -> << m.cur[1], b[2] + v[1] >>)
NewSub(m) == IF Last(m.subs) = <<>> THEN m ELSE [ m EXCEPT !.subs = Append(@, <<>>) ]
Tok(m, t) ==
  IF m.res # "run" THEN m
  ELSE IF t.k = "x" THEN [ m EXCEPT !.res = "refuse" ]
  ELSE IF t.k = "b" THEN [ m EXCEPT !.res = "open" ]
  ELSE IF t.k = "n"
  THEN IF ~m.any THEN [ m EXCEPT !.res = "open" ]                     \* no command yet
       ELSE IF m.c = LZ THEN [ m EXCEPT !.res = "refuse" ]
       ELSE LET n == [ m EXCEPT !.vals = Append(@, t.v) ]
            IN IF Len(n.vals) = Nb(m.c) THEN Group(n) ELSE n
  ELSE IF m.vals # <<>> THEN [ m EXCEPT !.res = "refuse" ]            \* incomplete group
  ELSE IF Up(t.v) \notin {LM, LL, LH, LV, LZ} THEN [ m EXCEPT !.res = "refuse" ]
  ELSE IF m.any /\ ~m.got /\ m.c # LZ THEN [ m EXCEPT !.res = "open" ]        \* a command without any value
  ELSE IF ~m.any /\ Up(t.v) # LM THEN [ m EXCEPT !.res = "open" ]     \* does not start with a move
  ELSE LET n == [ m EXCEPT !.c = Up(t.v), !.rel = t.v >= 97, !.got = FALSE, !.any = TRUE ] IN
       IF n.c = LM THEN NewSub(n)
       ELSE IF n.c = LZ
       THEN IF Last(n.subs) = <<>> THEN n
            ELSE [ NewSub(n) EXCEPT !.cur = Last(n.subs)[1] ]         \* back to the start of the sub-path
       ELSE IF Last(n.subs) = <<>> /\ Len(n.subs) > 1 THEN PutPt(n, n.cur) \* drawing goes on after a close
       ELSE n
Dedup(q) == KeepIdx(q, { i \in 1..(Len(q)-1) : q[i] = q[i+1] })
Read(s) ==
  LET ts == Lex(s, 1, <<>>)
      m == FoldLeft(Tok, P0, ts)
      r == IF s = <<>> THEN "refuse"
           ELSE IF m.res # "run" THEN m.res
           ELSE IF m.vals # <<>> THEN "refuse"
           ELSE IF ~m.any \/ (~m.got /\ m.c # LZ) THEN "open" ELSE "ok"
      \* after a drawing command without value nothing is claimed, so the lists hold points
      subs == SelectSeq(m.subs, LAMBDA q : q # <<>>)
  IN [ r |-> r, subs |-> [ i \in 1..Len(subs) |-> Dedup(subs[i]) ], z |-> m.c = LZ ]
\* what the import makes of them: the polylines
Lines(rd) == LET f(q) == IF Len(q) > 1 /\ q[1] = q[Len(q)] THEN SubSeq(q, 1, Len(q) - 1) ELSE q
             IN SelectSeq([ i \in 1..Len(rd.subs) |-> f(rd.subs[i]) ], LAMBDA q : Len(q) >= 2)
Same(o, q) == Len(o) = Len(q) /\ \A i \in 1..Len(q) : Near(o[i][1], q[i][1], 3) /\ Near(o[i][2], q[i][2], 3)
SameL(o, q) == Len(o) = Len(q) /\ \A i \in 1..Len(q) : Same(o[i], q[i])
Accepts(st, e) ==
  IF e.op = "begin" THEN TRUE
  ELSE LET rd == Read(e.a) IN
       CASE e.op = "path" ->
              /\ (rd.r = "ok" => e.r = "ok" /\ SameL(e.v, rd.subs) /\ e.z = rd.z)
              /\ (rd.r = "refuse" => e.r = "throw")
         [] e.op = "imp" ->        \* through a document: a refused path is left out, its neighbours are not disturbed
              /\ e.r = "ok" /\ e.first = "Circle" /\ e.last = "FRect"
              /\ (rd.r = "ok" => SameL(e.v, Lines(rd)) /\ \A i \in 1..Len(e.k) : e.k[i] = (IF rd.z THEN "CPolyline" ELSE "OPolyline"))
              /\ (rd.r = "refuse" => e.v = <<>>)
         [] OTHER -> FALSE
Apply(st, e) == st
=============================================================================
