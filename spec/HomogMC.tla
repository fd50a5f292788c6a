------------------------------- MODULE HomogMC ------------------------------
(* Mode "enum": every history of up to N modifications from a catalogue, each *)
(* state observed by images of lines and points, which is where a stale       *)
(* cached inverse would show; Mode "sim": random histories over three slots.  *)
EXTENDS Homog, Json
CONSTANTS Mode, N, B, Stride, Off, D, Fam
VARIABLES st, hist, np
vars == <<st, hist, np>>
Small(z) == z.d # 0 => (MaxAbs(z.m) <= B /\ z.d <= B /\ z.q < QMax)
R(a, b) == RandomElement(a..b)
Ev(o) == [ op |-> o[1], a |-> Tail(o), r |-> IF o[1] = "tra" \/ (o[1] = "ss" /\ o[3] >= 2 /\ o[4] # o[5]) \/ (o[1] = "cell" /\ o[7] >= 2 /\ (o[3] > 2 \/ o[4] > 2)) THEN "skip" ELSE "ok" ]
EvT(o) == IF o[1] = "tra" /\ Fam # "tra" THEN Ev(o) ELSE [ Ev(o) EXCEPT !.r = IF o[1] = "tra" THEN "ok" ELSE @ ]
\* a catalogue of modifications of slots 1 and 2
Cat == << <<"st",1,1,1,-2>>, <<"st",1,0,2,1>>, <<"sr",1,1,1>>, <<"sr",1,1,4>>, <<"ss",1,1,2,1,1>>, <<"ss",1,3,1,1,2>>, <<"cell",1,2,0,1,2,0>>,
          <<"cell",1,2,1,-1,4,1>>, <<"cell",1,0,1,1,1,2>>, <<"cell",1,2,2,2,1,3>>, <<"cell",1,2,2,0,1,0>>, <<"cell",1,1,1,0,1,1>>, <<"mul",1,1,2>>, <<"mul",1,2,1>>, <<"mul",2,1,1>>,
          <<"inv",1>>, <<"tra",1>>, <<"nrm",1>>, <<"asg",1,2>>, <<"cpy",2,1>>, <<"eq",1,2>>, <<"vec",1,0,1,2,0,0,1,1,1,0,1,1>>, <<"vec",2,1,2,0,1,0,2,0,0,1,2,2>>,
          <<"vec",1,2,1,0,0,0,1,0,1,0,0,1>>, <<"vec",1,3,1,0,0,0,1,0,0,0,1,1>>, <<"cell",1,3,1,5,1,0>>, <<"init",1>> >>
Look(s, i) == << <<"apl",s,0,i % 3,1 + (i % 2),2>>, <<"app",s,i % 4,1>> >>
\* applying f to every point and line before and after: the cache is in use from the first step
Path(w) == << <<"begin">>, <<"vec",2,0,1,1,0,0,1,0,1,0,2,2>>, <<"apl",1,0,0,1,1>>, <<"apl",2,0,1,1,0>> >>
           \o FlattenSeq([ i \in 1..Len(w) |-> << Cat[w[i]] >> \o Look(1, i + w[i]) \o (IF (i + w[1]) % 2 = 0 THEN Look(2, i) ELSE <<>>) ])
           \o << <<"obs",1>>, <<"obs",2>>, <<"apl",2,1,0,0,2>>, <<"img",1,4,2,0,0,1,2>>, <<"eq",1,2>>, <<"obs",1>>, <<"apl",1,0,1,2,0>> >>
Fold(s, h) == FoldLeft(LAMBDA z, o : Apply(z, EvT(o)), s, h)
(*------------------------------ random histories -------------------------*)
RP(dummy) == << R(-3,3), R(-3,3) >>
Figure(dummy) == LET k == RandomElement({3,4,5,7,8,11,12,13,14,15,16,17,18})
              n == CASE k \in {3,4,5} -> 2 [] k = 13 -> 3 [] k \in {14,15,17} -> 2 * R(0,2) [] OTHER -> R(0,5)
          IN <<"img", R(1,3), k, n>> \o FlattenSeq([ i \in 1..n |-> RP(np) ])
\* lines of code that build one random operation; s, t, u: slots
SimOps(dummy) == LET s == R(1,3)  t == R(1,3)  u == R(1,3)  v == R(0,3) IN
  { <<"st",s,R(0,2),R(-4,4),R(-4,4)>>, <<"sr",s,R(0,2),R(0,3)>>, <<"sr",s,R(0,2),R(0,11)>>, <<"ss",s,R(0,3),R(-2,3),R(-2,3),R(1,2)>>, <<"ss",s,2 + (v % 2),v,v,R(1,2)>>,
    <<"cell",s,R(0,2),R(0,2),R(-3,3),RandomElement({1,2,4}),v>>, <<"cell",s,2,R(0,1),R(-1,1),RandomElement({2,4,8}),v>>, <<"cell",s,R(0,3),R(0,3),1,1,v % 2>>,
    <<"mul",s,t,u>>, <<"mul",s,s,t>>, <<"inv",s>>, <<"tra",s>>, <<"nrm",s>>, <<"asg",s,t>>, <<"cpy",s,t>>, <<"eq",s,t>>, <<"init",s>>, <<"ctor",s,R(0,2),v,R(-3,3)>>,
    <<"vec",s,R(0,2),R(-2,2),R(-2,2),R(-3,3),R(-2,2),R(-2,2),R(-3,3),R(-1,1),R(-1,1),R(-2,2),RandomElement({1,2})>>, <<"vec",s,R(3,4),1,0,0,0,1,0,0,0,1,1>> }
\* matrices of other libraries, pairs of points
RQ(dummy) == << R(0,3), R(0,3) >>
RFour(n) == <<n>> \o FlattenSeq([ i \in 1..n |-> RQ(np) ])
Quad(k) == LET x == R(5,100) y == R(5,100) z == R(5,100) w == R(5,100) a == R(-4,4) b == R(-4,4) IN
           IF k THEN << <<x,a>>, <<b,y>>, <<-z,a>>, <<b,-w>> >> ELSE << <<x,a>>, <<b,-w>>, <<-z,a>>, <<b,y>> >>
Moved(q, v) == [ i \in 1..4 |-> << q[i][1] + v[1], q[i][2] + v[2] >> ]
BindOps(dummy) == LET s == R(1,3)  v == R(0,5)  k == R(0,1) = 0  w == <<R(-50,50), R(-50,50)>> n == RandomElement({4,4,4,4,4,4,3,5,0}) IN
  { <<"cvm",s,v,R(-2,2),R(-2,2),R(-3,3),R(-2,2),R(-2,2),R(-3,3),R(-1,1),R(-1,1),R(-2,2),RandomElement({1,2})>>,
    <<"cvm",s,v,1,R(-2,2),R(-3,3),0,1,R(-3,3),0,0,RandomElement({1,2,-1}),1>>,
    <<"cvm",s,R(6,10),1,0,2,0,1,0,0,0,1,1>>, <<"cvx",s,v>>, <<"cvx",s,R(0,7)>>, <<"f4p",s,v>> \o RFour(4) \o RFour(4), <<"f4p",s,R(0,5)>> \o RFour(n) \o RFour(4), <<"f4p",s,v>> \o RFour(4) \o RFour(n),
    <<"f4p",s,v,4,0,0,2,0,2,2,0,2,4>> \o FlattenSeq([ i \in 1..4 |-> RQ(np) ]),
    <<"f4i",s,v,4>> \o FlattenSeq(Quad(k)) \o <<4>> \o FlattenSeq(Moved(Quad(k), w)) }
Looks(dummy) == LET p == RP(np) q == RP(np) w == RP(np) z == RP(np) IN
  { <<"obs",R(1,3)>>, <<"app",R(1,3)>> \o p, <<"apl",R(1,3)>> \o p \o q, <<"apl",R(1,3)>> \o p \o w, <<"iml",R(1,3),R(0,2),4>> \o p \o q \o w \o z, Figure(np) }
FigLooks(dummy) == LET k == R(1,8) IN {Figure(np)} \cup (IF k <= 6 THEN {} ELSE {<<"iml",R(1,3),R(0,2),4>> \o RP(np) \o RP(np) \o RP(np) \o RP(np)})
\* every figure of a catalogue under every matrix of a catalogue
MCat == << <<1,0,1, 0,1,-2, 0,0,1>>, <<0,-1,0, 1,0,0, 0,0,1>>, <<-1,0,0, 0,1,0, 0,0,1>>, <<2,1,0, 0,1,1, 0,0,1>>, <<1,2,3, -2,1,0, 0,0,2>>, <<1,0,0, 1,0,0, 0,0,1>>, <<0,0,1, 0,0,2, 0,0,1>>,
           <<1,0,0, 0,1,0, 1,0,4>>, <<1,0,0, 0,1,0, 0,-1,4>>, <<2,1,0, 1,3,1, 1,1,4>>, <<0,1,2, 3,0,1, -1,1,8>>, <<1,0,0, 0,1,0, 2,1,1>>, <<3,0,0, 0,3,0, 0,0,-1>>, <<-1,0,2, 0,-1,1, 0,0,1>> >>
G3 == (0..2) \X (0..2)
FCat(k) == CASE k \in {3,4,14,15,17} -> { <<p, q>> : p, q \in G3 }
             [] k = 5 -> { <<p, q>> : p, q \in {<<0,0>>, <<1,2>>, <<2,1>>, <<2,2>>, <<0,1>>} }
             [] OTHER -> { <<p, q, <<2,2>> >> : p, q \in G3 } \cup { <<p, <<1,2>>, q, <<0,2>> >> : p, q \in G3 }
ImgScen(cat) == { << <<"begin">>, <<"vec",1,0>> \o cat[i] \o <<1>>, <<"img",1,k,Len(w)>> \o FlattenSeq(w), <<"cell",1,0,2,3,1,v>>, <<"img",1,k,Len(w)>> \o FlattenSeq(w), <<"mul",2,1,1>>, <<"img",2,k,Len(w)>> \o FlattenSeq(w) >> :
               <<i, k, w, v>> \in UNION { { <<i, k, w, (i + k) % 4>> : w \in FCat(k) } : <<i, k>> \in (1..Len(cat)) \X {3,4,5,7,8,11,12,13,14,15,16,17,18} } }
\* every list of four points of a small grid in general position, from a few sources
Src4 == << << <<0,0>>,<<1,0>>,<<1,1>>,<<0,1>> >>, << <<0,1>>,<<2,0>>,<<1,2>>,<<3,3>> >>, << <<2,2>>,<<-1,0>>,<<0,-1>>,<<1,3>> >>, << <<0,0>>,<<3,1>>,<<1,1>>,<<1,3>> >> >>
Dst4 == { q \in [ 1..4 -> G3 ] : GenPos(q) }
FourScen == { << <<"begin">>, <<"apl",1,0,0,1,1>>, <<"f4p",1,v,4>> \o FlattenSeq(p) \o <<4>> \o FlattenSeq(q) >> \o [ i \in 1..4 |-> <<"app",1>> \o p[i] ]
               \o << <<"apl",1>> \o p[1] \o p[2], <<"cvx",1,v>>, <<"obs",1>>, <<"inv",1>> >> \o [ i \in 1..4 |-> <<"app",1>> \o q[i] ] \o << <<"apl",1>> \o q[1] \o q[3] >> :
               <<p, q, v>> \in { <<Src4[i], q, (i + q[1][1] + q[2][2] + q[3][1]) % 6>> : <<i, q>> \in (1..Len(Src4)) \X Dst4 } }
Quads(h) == << List(h[3], 4), List(h[3], 13) >>
FourOK == Mode = "four" =>
   LET pq == Quads(hist)  p == pq[1]  q == pq[2]  m == FourM(p, q)
       z == [ Eye EXCEPT !.m = m ]
   IN /\ GenPos(p) /\ Det9(m) # 0
      /\ \A i \in 1..4 : LET h == Img(z, p[i]) IN h[3] # 0 /\ h[1] = q[i][1] * h[3] /\ h[2] = q[i][2] * h[3]
Init == /\ np = 0
        /\ IF Mode = "four" THEN hist \in FourScen /\ st = InitSt ELSE IF Mode = "img" THEN hist \in ImgScen(MCat) /\ st = InitSt
           ELSE IF Mode = "sim" THEN hist = << <<"begin">> >> /\ st = InitSt
           ELSE hist = <<>> /\ st = Fold(InitSt, << <<"vec",2,0,1,1,0,0,1,0,1,0,2,2>> >>)
Next == /\ np < D /\ Mode \notin {"img","four"}
        /\ np' = np + 1
        /\ IF Mode = "sim"
           THEN \E o \in { RandomElement(IF np = D-1 THEN {<<"obs",1>>} ELSE IF Fam = "bind" /\ np % 3 = 0 THEN BindOps(np) ELSE IF np % (IF Fam = "img" THEN 3 ELSE 2) = 0 THEN SimOps(np) ELSE IF Fam = "img" THEN FigLooks(np) ELSE Looks(np)) } :
                  LET n == Apply(st, EvT(o))
                  IN IF \A i \in Slots : Small(n.s[i])
                     THEN hist' = Append(hist, o) /\ st' = n
                     ELSE UNCHANGED <<hist, st>>          \* not taken: the numbers would grow too large
           ELSE \E i \in 1..Len(Cat) :
                  /\ hist' = Append(hist, i)
                  /\ st' = Apply(st, EvT(Cat[i]))
                  /\ \A k \in Slots : Small(st'.s[k])
Spec == Init /\ [][Next]_vars
Hash == FoldLeft(LAMBDA h, i : ((h * 31) + i + 1000) % 30011, 7, IF Mode = "img" THEN Tail(hist[2]) \o Tail(hist[3]) ELSE IF Mode = "four" THEN Tail(hist[3]) ELSE hist)
Emit == IF Mode = "sim" THEN np = D => PrintT(ToJson(hist \o << <<"obs",1>>, <<"obs",2>>, <<"obs",3>> >>))
        ELSE IF Mode \in {"img","four"} THEN Hash % Stride = Off => PrintT(ToJson(hist))
        ELSE (np > 0 /\ Hash % Stride = Off) => PrintT(ToJson(Path(hist)))

(*--------------------- what the specification must satisfy ---------------*)
Tests == { <<0,0>>, <<1,0>>, <<0,1>>, <<2,-3>>, <<-1,2>> }
HSame(g, h) == g[1]*h[3] = h[1]*g[3] /\ g[2]*h[3] = h[2]*g[3] /\ g[1]*h[2] = h[1]*g[2]
Reg(z) == z.d # 0 /\ Det9(z.m) # 0
InvOK == Mode = "enum" => \A i \in 1..2 : LET z == st.s[i] IN (Reg(z) /\ z.m[9] # 0 /\ Adj9(z.m)[9] # 0) =>
   LET v == Inv(z) IN
   /\ Inv(v).m = Norm(z).m /\ Inv(v).d = Norm(z).d                 \* inverting twice
   /\ Mul9(v.m, z.m) = [ k \in 1..9 |-> Id9[k] * Mul9(v.m, z.m)[1] ]       \* a transformation, then its inverse
ComposeOK == Mode = "enum" => LET y == st.s[1]  z == st.s[2] IN (Reg(y) /\ Reg(z) /\ Prod(y,z).m[9] # 0) =>
   \A p \in Tests : LET h == Img(z, p) IN
      HSame(Img(Norm(Prod(y, z)), p), << y.m[1]*h[1]+y.m[2]*h[2]+y.m[3]*h[3], y.m[4]*h[1]+y.m[5]*h[2]+y.m[6]*h[3], y.m[7]*h[1]+y.m[8]*h[2]+y.m[9]*h[3] >>)
IncidenceOK == Mode = "enum" => LET z == st.s[1] IN Reg(z) =>
   \A p, q \in Tests : p # q => LET l == LineImg(z, Line3(p, q)) IN
      \A w \in {p, q} : LET h == Img(z, w) IN l[1]*h[1] + l[2]*h[2] + l[3]*h[3] = 0
=============================================================================
