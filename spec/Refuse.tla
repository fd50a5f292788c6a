-------------------------------- MODULE Refuse -------------------------------
(***************************************************************************)
(* One object of each kind and the requests made to it, valid or not.  Must   *)
(* tells which are refused; whatever is refused, or is only a question,       *)
(* leaves every object exactly as it was last seen; what is accepted changes  *)
(* its target only, to the value asked for.                                   *)
(***************************************************************************)
EXTENDS Geom
HM == INSTANCE Homog
Open == "any"
Poly(v) == [ k |-> "pts", v |-> v, n |-> Len(v) ]
UnkPoly(n) == [ k |-> "unk", v |-> <<>>, n |-> n ]
Rcp(n) == [ k |-> "rcp", v |-> <<>>, n |-> n ]
UnkSeg == [ ok |-> FALSE, a |-> <<0,0>>, b |-> <<0,0>> ]
Sg(a, b) == [ ok |-> TRUE, a |-> a, b |-> b ]
UnkCirc == [ ok |-> FALSE, x |-> 0, y |-> 0, rr |-> 0 ]                  \* centre doubled, squared diameter
InitSt == [ l |-> <<1,0,0>>, s |-> Sg(<<0,0>>,<<1,1>>), o |-> Sg(<<0,0>>,<<1,1>>), c |-> [ ok |-> TRUE, x |-> 0, y |-> 0, rr |-> 4 ],
            b |-> <<0,0,2,2>>, cp |-> Poly(<<>>), op |-> Poly(<<>>), h |-> HM!Eye, dnc |-> FALSE, f |-> FALSE, d |-> <<>> ]
Fields == { "p","l","s","o","c","b","cp","oq","len","h" }
LookOf(e) == [ k \in Fields |-> e[k] ]

P2(a, i) == << a[i], a[i+1] >>
PtsOf(a, i) == [ k \in 1..a[i] |-> << a[i + 2*k - 1], a[i + 2*k] >> ]
LineThru(p, q) == << p[2]-q[2], q[1]-p[1], p[1]*q[2]-q[1]*p[2] >>
CrossL(l, m) == << l[2]*m[3]-l[3]*m[2], l[3]*m[1]-l[1]*m[3], l[1]*m[2]-l[2]*m[1] >>
OnL(l, p) == l[1]*p[1] + l[2]*p[2] + l[3]
Axis(l) == l[1] = 0 \/ l[2] = 0
FineList(w) == Len(w) = 0 \/ (Len(w) > 1 /\ \A i \in 1..Len(w) : w[i] # w[Nxt(i, Len(w))])
Flat(w) == \/ Cardinality({ w[i][1] : i \in 1..Len(w) }) < 2 \/ Cardinality({ w[i][2] : i \in 1..Len(w) }) < 2
T(b) == IF b THEN "throw" ELSE "ok"
Unless(open, b) == IF open THEN Open ELSE T(b)
PolyOf(st, t) == IF t = 0 THEN st.cp ELSE st.op
AllSame(w) == Cardinality({ w[i] : i \in 1..Len(w) }) < 2
Img(st, p) == HM!Img(st.h, p)
Hx(st) == st.h.d # 0 /\ st.h.x
HSt(st) == [ s |-> << st.h, st.h, st.h >>, f |-> TRUE, eig |-> TRUE, cv |-> TRUE ]
HOut(st, op, a) == HM!Out(HSt(st), [ op |-> op, a |-> a ])
HCall(st, e) ==
  LET a == e.a IN
  CASE e.op = "hset" -> IF a[1] = 2 THEN (IF a[2] > 2 \/ a[3] > 2 THEN HM!Refused(st.h) ELSE HM!Sure(st.h)) ELSE HOut(st, "cell", << 1, a[2], a[3], a[4], 1, 0 >>)
    [] e.op = "hinv" -> HOut(st, "inv", << 1 >>)
    [] e.op = "hnrm" -> HOut(st, "nrm", << 1 >>)
    [] OTHER -> IF a[1] # 3 \/ a[2] # 3 THEN HM!Refused(st.h) ELSE HOut(st, "vec", << 1, 0, 1,0,0, 0,1,0, 0,0,a[3], 1 >>)
BadBB(q) == CASE q.k = "unk" -> Open [] q.k = "rcp" -> "ok" [] OTHER -> T(Len(q.v) < 2 \/ Flat(q.v))
SameH(p, q) == p[1]*q[3] = q[1]*p[3] /\ p[2]*q[3] = q[2]*p[3]
ImgList(st, v) == [ i \in 1..Len(v) |-> Img(st, v[i]) ]
ImgBad(st, v) == LET w == ImgList(st, v) IN
   IF ~Hx(st) \/ \E i \in 1..Len(w) : w[i][3] = 0 THEN Open
   ELSE T(\E i \in 1..(Len(w)-1) : SameH(w[i], w[i+1]))

\* "throw", "ok" or Open
Must(st, e) ==
  LET a == e.a IN
  CASE e.op = "pset" -> T(a[2] = 0 /\ a[3] = 0 /\ a[4] = 0)
    [] e.op = "ppl" -> LET m == LineThru(P2(a,2), P2(a,4)) IN T(CrossL(st.l, m)[3] = 0)
    [] e.op = "lset" -> T(a[2] = 0 /\ a[3] = 0)
    [] e.op = "lpp" -> T(P2(a,2) = P2(a,4))
    [] e.op = "lq" -> LET k == a[1] p == P2(a,3) q == P2(a,5) m == LineThru(p, q) l == st.l IN
         (CASE k \in {0,2} -> T(l[2] = 0)
            [] k \in {1,7,10} -> T(l[1] = 0)
            [] k \in {3,4} -> IF OnL(l,p) = 0 /\ st.f /\ ~Axis(l) THEN Open ELSE T(OnL(l,p) # 0)
            [] k = 5 -> IF OnL(l,p) = 0 /\ st.f /\ ~Axis(l) THEN Open ELSE T(OnL(l,p) = 0)
            [] k = 6 -> T(CrossL(l, m)[3] # 0)
            [] k = 8 -> T(CrossL(l, m)[3] = 0)
            [] k = 9 -> "throw"
            [] OTHER -> LET u == Sgn(OnL(l,p)) v == Sgn(OnL(l,q)) IN
                 IF u = 0 /\ v = 0 THEN "throw" ELSE IF u * v = 0 /\ ~(Axis(l) /\ Axis(m)) THEN Open ELSE T(u * v > 0))
    [] e.op \in {"sset"} -> T(P2(a,3) = P2(a,5))
    [] e.op = "sq" -> LET k == a[1] d == a[2] p == P2(a,3) q == P2(a,5) g == IF k \in {3,4} THEN st.s ELSE st.o IN
         (CASE k = 0 -> T(d < 0)
            [] k = 1 -> IF d <= 0 THEN "throw" ELSE IF ~g.ok THEN Open ELSE LET n == D2(g.a, g.b) IN IF d*d = n THEN Open ELSE T(d*d > n)
            [] k \in {2,3} -> T(d <= 0)
            [] OTHER -> IF ~g.ok THEN Open
                        ELSE IF SegCross(g.a, g.b, p, q) /\ (OnSeg(g.a,p,q) \/ OnSeg(g.b,p,q) \/ OnSeg(p,g.a,g.b) \/ OnSeg(q,g.a,g.b))
                                /\ ~(Axis(LineThru(p,q)) /\ Axis(LineThru(g.a,g.b))) THEN Open
                        ELSE T(~SegCross(g.a, g.b, p, q)))
    [] e.op = "cset" -> LET v == a[1] r == a[4] IN IF v = 5 THEN "ok" ELSE T(r < 0 \/ (r = 0 /\ ~st.dnc))
    [] e.op = "c2p" -> Unless(st.dnc, P2(a,2) = P2(a,4))
    [] e.op = "c3p" -> Unless(st.dnc, Cross(P2(a,2), P2(a,4), P2(a,6)) = 0)
    [] e.op = "cct" -> LET w == PtsOf(a, 2) IN Unless(st.dnc /\ Len(w) > 1, Len(w) < 2 \/ AllSame(w))
    [] e.op = "dnc" -> "ok"
    [] e.op = "rset" -> T(a[2] = a[4] \/ a[3] = a[5])
    [] e.op = "rwh" -> T(a[3] = 0 \/ a[4] = 0)
    [] e.op = "rq" -> LET x1 == 2*Min2(a[2],a[4]) x2 == 2*Max2(a[2],a[4]) y1 == 2*Min2(a[3],a[5]) y2 == 2*Max2(a[3],a[5]) r == st.b IN
                      T(Max2(x1, r[1]) >= Min2(x2, r[3]) \/ Max2(y1, r[2]) >= Min2(y2, r[4]))
    [] e.op = "plset" -> T(~FineList(PtsOf(a, 3)))
    [] e.op = "plpar" -> T(Cross(P2(a,1), P2(a,3), P2(a,5)) = 0)
    [] e.op = "plrcp" -> T(a[2] <= 0 \/ a[3] < 3)
    [] e.op = "plq" -> LET t == a[1] k == a[2] i == a[3] q == PolyOf(st, t) n == q.n
                           segs == IF n < 2 THEN 0 ELSE IF t = 0 THEN n ELSE n - 1 IN
         (CASE k = 0 -> T(i >= n)
            [] k \in {1,2} -> T(i >= segs)
            [] k \in {3,14} -> BadBB(q)
            [] k = 4 -> IF t = 1 THEN "throw" ELSE CASE q.k = "unk" -> Open [] q.k = "rcp" -> "ok" [] OTHER -> T(~SimplePoly(q.v))
            [] k \in {5,13} -> T(n = 0)
            [] k = 6 -> IF n < 3 THEN "throw"
                        ELSE CASE q.k = "unk" -> Open [] q.k = "rcp" -> "ok"
                               [] OTHER -> IF st.f \/ \E j \in 1..n : CrossV(Sub(q.v[Nxt(j,n)], q.v[j]), Sub(q.v[Prv(j,n)], q.v[j])) = 0 THEN Open ELSE "ok"
            [] k = 7 -> T(n = 0 \/ st.op.n = 0)
            [] k = 8 -> T(n = 0 \/ st.cp.n = 0)
            [] OTHER -> T(n = 0))
    [] e.op \in {"hset","hinv","hnrm","hvec"} -> LET o == HCall(st, e) IN IF o[3] THEN Open ELSE T(o[2])
    [] e.op = "hpl" -> IF a[1] = 2 THEN (IF ~st.s.ok THEN Open ELSE ImgBad(st, << st.s.a, st.s.b >>))
                       ELSE LET q == PolyOf(st, a[1]) IN IF q.n = 0 THEN "ok" ELSE IF q.k # "pts" THEN Open ELSE ImgBad(st, q.v)
    [] e.op = "fq" -> LET k == a[1] w == PtsOf(a, 2) IN
         (CASE k \in {0,1} -> T(Len(w) < 2 \/ Flat(w))
            [] k \in {2,3,4,5} -> T(Len(w) = 0)
            [] k \in {6,7,8} -> T(Len(w) < 2)
            [] k \in {9,12} -> "throw"
            [] k = 10 -> BadBB(st.cp)
            [] OTHER -> IF st.cp.k = "unk" \/ st.op.k = "unk" THEN Open
                        ELSE IF st.cp.k = "rcp" THEN "ok" ELSE T(LET v == st.cp.v \o st.op.v IN Len(v) < 2 \/ Flat(v)))
    [] e.op = "tan" -> IF st.dnc \/ ~st.c.ok \/ st.c.rr = 0 THEN Open
                       ELSE IF a[3] <= 0 \/ (st.c.x = 2*a[1] /\ st.c.y = 2*a[2] /\ st.c.rr = 4*a[3]*a[3]) THEN "throw"
                       ELSE LET dd == D2(<<st.c.x,st.c.y>>, <<2*a[1],2*a[2]>>)  u == ISqrt(st.c.rr) IN
                            IF ~st.f /\ dd > (Abs(u - 2*a[3]) + 3)*(Abs(u - 2*a[3]) + 3) THEN "ok" ELSE Open
    [] OTHER -> T(a[2] <= a[1])                                         \* random colours
\* what an accepted call may change
Targets(e) ==
  LET a == e.a IN
  CASE e.op \in {"pset","ppl"} -> {"p"}
    [] e.op \in {"lset","lpp"} -> {"l"}
    [] e.op = "sset" -> IF a[1] = 0 THEN {"s"} ELSE {"o"}
    [] e.op \in {"cset","c2p","c3p","cct"} -> {"c"}
    [] e.op \in {"rset","rwh"} -> {"b"}
    [] e.op = "plset" -> IF a[1] = 0 THEN {"cp","len"} ELSE {"oq","len"}
    [] e.op \in {"plpar","plrcp"} -> {"cp","len"}
    [] e.op = "plq" -> IF a[2] \notin {5,13} THEN {} ELSE IF a[1] = 0 THEN {"cp","len"} ELSE {"oq","len"}
    [] e.op \in {"hset","hinv","hnrm","hvec"} -> {"h"}
    [] e.op = "hpl" -> CASE a[1] = 0 -> {"cp","len"} [] a[1] = 1 -> {"oq","len"} [] OTHER -> {"s"}
    [] OTHER -> {}
SortR(r) == << Min2(r[1],r[3]), Min2(r[2],r[4]), Max2(r[1],r[3]), Max2(r[2],r[4]) >>
\* the objects after an accepted call
NewC(st, a) == CASE a[1] = 0 -> IF st.c.ok THEN [ st.c EXCEPT !.rr = 4*a[4]*a[4] ] ELSE UnkCirc
                 [] a[1] = 5 -> IF st.c.ok THEN [ st.c EXCEPT !.x = 2*a[2], !.y = 2*a[3] ] ELSE UnkCirc
                 [] a[1] = 6 -> [ ok |-> TRUE, x |-> 0, y |-> 0, rr |-> 4*a[4]*a[4] ]
                 [] OTHER -> [ ok |-> TRUE, x |-> 2*a[2], y |-> 2*a[3], rr |-> 4*a[4]*a[4] ]
SetPoly(st, t, q) == IF t = 0 THEN [ st EXCEPT !.cp = q ] ELSE [ st EXCEPT !.op = q ]
IntPt(w) == w[3] # 0 /\ w[1] % Abs(w[3]) = 0 /\ w[2] % Abs(w[3]) = 0
AsInt(w) == << (w[1] * Sgn(w[3])) \div Abs(w[3]), (w[2] * Sgn(w[3])) \div Abs(w[3]) >>
ImgPoly(st, q) == IF q.k = "pts" /\ Hx(st) /\ \A i \in 1..q.n : IntPt(Img(st, q.v[i]))
                  THEN LET w == [ i \in 1..q.n |-> AsInt(Img(st, q.v[i])) ] IN IF FineList(w) THEN Poly(w) ELSE UnkPoly(q.n)
                  ELSE UnkPoly(q.n)
Done(st, e) ==
  LET a == e.a IN
  CASE e.op = "lset" -> [ st EXCEPT !.l = << a[2], a[3], a[4] >> ]
    [] e.op = "lpp" -> [ st EXCEPT !.l = LineThru(P2(a,2), P2(a,4)) ]
    [] e.op = "sset" -> IF a[1] = 0 THEN [ st EXCEPT !.s = Sg(P2(a,3), P2(a,5)) ] ELSE [ st EXCEPT !.o = Sg(P2(a,3), P2(a,5)) ]
    [] e.op = "cset" -> [ st EXCEPT !.c = NewC(st, a) ]
    [] e.op = "c2p" -> [ st EXCEPT !.c = IF P2(a,2) = P2(a,4) THEN UnkCirc ELSE [ ok |-> TRUE, x |-> a[2]+a[4], y |-> a[3]+a[5], rr |-> D2(P2(a,2), P2(a,4)) ] ]
    [] e.op \in {"c3p","cct"} -> [ st EXCEPT !.c = UnkCirc ]
    [] e.op = "dnc" -> [ st EXCEPT !.dnc = (a[1] # 0) ]
    [] e.op = "rset" -> [ st EXCEPT !.b = SortR(<< 2*a[2], 2*a[3], 2*a[4], 2*a[5] >>) ]
    [] e.op = "rwh" -> [ st EXCEPT !.b = SortR(<< 2*a[1]-a[3], 2*a[2]-a[4], 2*a[1]+a[3], 2*a[2]+a[4] >>) ]
    [] e.op = "plset" -> SetPoly(st, a[1], Poly(PtsOf(a, 3)))
    [] e.op = "plpar" -> SetPoly(st, 0, Poly(<< P2(a,1), P2(a,3), P2(a,5), Add(P2(a,1), Sub(P2(a,5), P2(a,3))) >>))
    [] e.op = "plrcp" -> SetPoly(st, 0, Rcp(a[3]))
    [] e.op = "plq" -> IF a[2] \notin {5,13} THEN st
                       ELSE LET q == PolyOf(st, a[1]) IN
                            SetPoly(st, a[1], IF q.k = "pts" THEN Poly([ i \in 1..q.n |-> Add(q.v[i], Sub(P2(a,4), q.v[1])) ]) ELSE q)
    [] e.op \in {"hset","hinv","hnrm","hvec"} -> [ st EXCEPT !.h = HCall(st, e)[1] ]
    [] e.op = "hpl" -> IF a[1] = 2 THEN [ st EXCEPT !.s = IF st.s.ok /\ Hx(st) /\ IntPt(Img(st, st.s.a)) /\ IntPt(Img(st, st.s.b)) /\ ~SameH(Img(st, st.s.a), Img(st, st.s.b))
                                                          THEN Sg(AsInt(Img(st, st.s.a)), AsInt(Img(st, st.s.b))) ELSE UnkSeg ]
                       ELSE SetPoly(st, a[1], ImgPoly(st, PolyOf(st, a[1])))
    [] OTHER -> st
\* ... and what is seen of them (n: the objects after the call)
LineIs(v, l) == LET k == Abs(l[1]) + Abs(l[2]) + Abs(l[3]) IN
  /\ v[1]*v[1] + v[2]*v[2] > 990000 /\ v[1]*v[1] + v[2]*v[2] < 1010000
  /\ Abs(v[1]*l[2] - v[2]*l[1]) <= 2*k /\ Abs(v[1]*l[3] - v[3]*l[1]) <= 2*k /\ Abs(v[2]*l[3] - v[3]*l[2]) <= 2*k
SegIs(v, a, b) == (PtOk(v[1], a) /\ PtOk(v[2], b)) \/ (PtOk(v[1], b) /\ PtOk(v[2], a))
ListIs(v, q) == Len(v) = q.n /\ (q.k = "pts" => \A i \in 1..q.n : PtOk(v[i], q.v[i]))
PathLen(w, closed) == SumSeq([ i \in 1..NbSegs(w, closed) |-> LET d == Edge(w, i) IN ISqrt(D2(d[1], d[2]) * (LS*LS)) ])
LenIs(v, q, closed) == q.k = "pts" => (v >= PathLen(q.v, closed) - 1 /\ v <= PathLen(q.v, closed) + q.n + 1)
ListImg(st, v, q) == (q.k = "pts" /\ Hx(st)) => \A i \in 1..q.n : LET w == Img(st, q.v[i]) IN w[3] # 0 => PtFxOk(v[i], w[1], w[2], w[3])
ValueOk(st, n, e) ==
  LET a == e.a IN
  CASE e.op = "pset" -> a[4] = 0 \/ PtFxOk(e.p, a[2], a[3], a[4])
    [] e.op = "ppl" -> LET x == CrossL(st.l, LineThru(P2(a,2), P2(a,4))) IN PtFxOk(e.p, x[1], x[2], x[3])
    [] e.op \in {"lset","lpp"} -> LineIs(e.l, n.l)
    [] e.op = "sset" -> IF a[1] = 0 THEN SegIs(e.s, n.s.a, n.s.b) ELSE PtOk(e.o[1], n.o.a) /\ PtOk(e.o[2], n.o.b)
    [] e.op \in {"cset","c2p"} -> n.c.ok => FxOk(e.c[1], n.c.x, 2) /\ FxOk(e.c[2], n.c.y, 2) /\ LenOk((2*e.c[3]) \div 50, n.c.rr)
    [] e.op = "c3p" -> \A i \in {1,2} : LET p == P2(a, 2*i) q == P2(a, 2*i+2) IN       \* as far from each of the three
                         Abs(2*(q[1]-p[1])*(e.c[1] \div 10) + 2*(q[2]-p[2])*(e.c[2] \div 10) - (D2(q,<<0,0>>) - D2(p,<<0,0>>))*1000) <= 8*(Abs(q[1]-p[1]) + Abs(q[2]-p[2])) + Abs(e.c[1]) \div 50000 + Abs(e.c[2]) \div 50000
    [] e.op \in {"rset","rwh"} -> \A i \in 1..4 : FxOk(e.b[i], n.b[i], 2)
    [] e.op \in {"plset","plpar"} -> ListIs(e.cp, n.cp) /\ ListIs(e.oq, n.op) /\ LenIs(e.len[1], n.cp, TRUE) /\ LenIs(e.len[2], n.op, FALSE)
    [] e.op = "plrcp" -> Len(e.cp) = a[3]
    [] e.op = "plq" -> a[2] \notin {5,13} \/ (ListIs(IF a[1] = 0 THEN e.cp ELSE e.oq, PolyOf(n, a[1])) /\ PtOk((IF a[1] = 0 THEN e.cp ELSE e.oq)[1], P2(a,4)))
    [] e.op \in {"hset","hinv","hnrm","hvec"} -> HM!CellsOk(HSt(n), n.h, [ m |-> e.h, raw |-> TRUE, nz |-> FALSE, det |-> 0 ])
    [] e.op = "hpl" -> IF a[1] = 2 THEN (st.s.ok /\ Hx(st)) => LET x == Img(st, st.s.a) y == Img(st, st.s.b) IN
                              (x[3] # 0 /\ y[3] # 0) => \/ PtFxOk(e.s[1], x[1], x[2], x[3]) /\ PtFxOk(e.s[2], y[1], y[2], y[3])
                                                        \/ PtFxOk(e.s[2], x[1], x[2], x[3]) /\ PtFxOk(e.s[1], y[1], y[2], y[3])
                       ELSE LET q == PolyOf(st, a[1]) v == IF a[1] = 0 THEN e.cp ELSE e.oq IN Len(v) = q.n /\ ListImg(st, v, q)
    [] OTHER -> TRUE
\* calls refused by the standard library or without the library's own report
Uncounted(e) == e.op = "hset"
Accepts(st, e) ==
  IF "r" \in DOMAIN e /\ e.r = "crash" THEN FALSE
  ELSE IF e.op = "begin" THEN TRUE
  ELSE IF e.r = "skip" THEN \A k \in Fields : e[k] = st.d[k]
  ELSE LET m == Must(st, e) IN
    /\ m # Open => e.r = m
    /\ e.r = "throw" => (\A k \in Fields : e[k] = st.d[k]) /\ (e.dc >= 1 \/ Uncounted(e))
    /\ e.r = "ok" => /\ \A k \in Fields \ Targets(e) : e[k] = st.d[k]
                     /\ e.dc = 0
                     /\ ValueOk(st, Done(st, e), e)
Apply(st, e) ==
  IF e.op = "begin" THEN [ InitSt EXCEPT !.f = e.f, !.d = LookOf(e) ]
  ELSE IF e.r = "ok" THEN [ Done(st, e) EXCEPT !.d = LookOf(e) ] ELSE [ st EXCEPT !.d = LookOf(e) ]
=============================================================================
