------------------------------- MODULE PixMC -------------------------------
(* Histories of drawings.  Mode "enum": every object of a small grid under a   *)
(* catalogue of settings; Mode "sim": random sequences.                        *)
EXTENDS Pix, Json, Randomization
CONSTANTS Mode, N, Stride, Off1, D
VARIABLES hist, np, w, h, sh
vars == <<hist, np, w, h, sh>>
R(a, b) == RandomElement(a..b)
(*------------------------------ random histories --------------------------*)
\* a coordinate for a size of n pixels, in quarters: inside in general; whole numbers half of the time
Cq(n) == LET t == R(0,9) IN IF t <= 5 THEN 4*R(0, n-1) ELSE IF t <= 7 THEN R(0, 4*n) ELSE IF t = 8 THEN R(-4*n, 8*n) ELSE 4*R(-3, n+2)
Pq(im) == << Cq(im[1]), Cq(im[2]) >>
Pts(im, n) == FlattenSeq([ i \in 1..n |-> Pq(im) ])
Apart(p, q) == IF p = q THEN << q[1] + 9, q[2] - 5 >> ELSE q
Obj(kd, im) ==
  LET p == Pq(im) q == Apart(p, Pq(im)) IN
  CASE kd = 1 -> p
    [] kd \in {2,3,4} -> p \o (IF R(0,3) = 0 THEN << q[1], p[2] + (IF q[1] = p[1] THEN 7 ELSE 0) >> ELSE q)
    [] kd = 5 -> p \o << R(0,3)*R(1,20) + R(3,12) >>
    [] kd = 6 -> p \o << q[1] + (IF q[1] = p[1] THEN 8 ELSE 0), q[2] + (IF q[2] = p[2] THEN 12 ELSE 0) >>
    [] kd = 7 -> p \o << 4*R(2,12), 4*R(2,12), R(0,11) >>
    [] OTHER -> LET n == R(2,5) v == RandomSubset(n, (0..im[1]) \X (0..im[2])) s == SetToSeq(v) IN << n >> \o FlattenSeq([ i \in 1..n |-> << 4*s[i][1], 4*s[i][2] >> ])
DpOp(z) == << "dp", RandomElement({1,2,3,4,5,8}), IF R(0,2) = 0 THEN R(2,7) ELSE 1, IF R(0,3) = 0 THEN 1 ELSE 2, R(0,1), IF R(0,2) = 0 THEN 1 ELSE 0, IF R(0,3) = 0 THEN 1 ELSE 0, R(0,5), 2*R(0,4)+1, R(8,30) >>
Ks == 1..9
Op1(t, i, im) ==     \* image i of size im
  CASE t \in 1..6 -> DpOp(0)
    [] t \in 7..24 -> LET kd == R(1,9) IN << "dr", i, R(0,2), kd >> \o Obj(kd, im)
    [] t \in 25..28 -> LET kd == R(1,7) n == R(1,3) IN << "drc", i, RandomElement({0,1,2,9}), kd, n >> \o FlattenSeq([ k \in 1..n |-> Obj(kd, im) ])
    [] t \in 29..30 -> LET k == R(1,9) l == R(1,9) IN << "drp", i, R(0,1), k, l >> \o Obj(k, im) \o Obj(l, im)
    [] t = 31 -> << "txt", i, R(0,1) >> \o Pq(im) \o << R(1,4) >>
    [] t = 32 -> << "clr", i, R(0,3), RandomElement({0,9,10}) >>
    [] t = 33 -> << "clr", i, R(1,2), R(0,10) >>
    [] t = 34 -> << "sz", i >>
    [] t = 35 -> << "wr", i >>
    [] t = 36 -> << "new", i, R(12,40), R(12,40) >>
    [] t = 37 -> << "siz", i, im[1] + R(1,6) - R(0,1)*(IF im[1] > 20 THEN 8 ELSE 0), IF im[2] > 30 THEN 14 ELSE im[2] + R(1,5), R(0,1) >>
    [] OTHER -> << "ext", i, R(12,40), R(12,40), R(0,10) >>
Clr(o) == o
Size(o, i) == IF o[1] \in {"new","siz","ext"} /\ o[2] = i THEN <<o[3], o[4]>> ELSE IF o[1] = "ext" /\ sh = i THEN <<20,20>> ELSE <<w[i], h[i]>>
Step(o) == /\ hist' = Append(hist, o)
           /\ w' = [ i \in 1..2 |-> Size(o, i)[1] ] /\ h' = [ i \in 1..2 |-> Size(o, i)[2] ]
           /\ sh' = IF o[1] = "ext" THEN o[2] ELSE IF o[1] \in {"new","siz"} /\ o[2] = sh THEN 0 ELSE sh
           /\ np' = np + 1
(*------------------------------ enumeration -------------------------------*)
\* settings x objects on a small grid
Dps == << <<"dp",2,1,2,0,0,0,0,3,20>>, <<"dp",3,1,2,1,0,0,1,5,20>>, <<"dp",4,3,2,1,0,0,5,3,20>>, <<"dp",5,5,2,0,0,0,2,3,12>>, <<"dp",8,1,1,1,0,0,3,5,20>>, <<"dp",2,1,2,1,1,1,4,3,16>>, <<"dp",1,2,1,0,1,1,2,7,10>> >>
Grid == << 0, 12, 40, 62, 76, 96 >>
G2 == { << Grid[i], Grid[j] >> : i \in 1..6, j \in 1..6 }
Objs(kd) ==
  CASE kd = 1 -> { <<1>> \o p : p \in G2 }
    [] kd \in {2,3,4} -> { <<kd>> \o p \o q : p \in G2, q \in G2 } \ { <<kd>> \o p \o p : p \in G2 }
    [] kd = 5 -> { <<5>> \o p \o <<r>> : p \in G2, r \in {6,16,28} }
    [] kd = 6 -> { <<6>> \o p \o << q[1], q[2] >> : p \in { p \in G2 : p[1] <= 40 /\ p[2] <= 40 }, q \in { q \in G2 : q[1] > 40 } } \ { x \in { <<6>> \o p \o q : p \in G2, q \in G2 } : x[3] = x[5] }
    [] OTHER -> { <<7>> \o p \o << a, b, k >> : p \in { <<40,40>>, <<44,37>> }, a \in {12,32}, b \in {16,24}, k \in 0..11 }
Init == hist = << <<"begin">>, <<"new",1,20,20>> >> /\ np = 0 /\ w = <<20,20>> /\ h = <<20,20>> /\ sh = 0
Next == np < (IF Mode = "sim" THEN D ELSE N) /\
        IF Mode = "sim" THEN \E o \in { LET i == R(1,2) IN Op1(R(1,38), i, << w[i], h[i] >>) } : Step(o)
        ELSE \E d \in 1..Len(Dps), kd \in 1..7 : \E o \in Objs(kd) :
               hist' = hist \o << Dps[d], << "dr", 1, d % 3 >> \o o >> /\ np' = np + 1 /\ UNCHANGED <<w, h, sh>>
Spec == Init /\ [][Next]_vars
Hash == FoldLeft(LAMBDA k, o : FoldLeft(LAMBDA a, v : ((a * 31) + v + 1000) % 30011, (k * 7 + Len(o)) % 30011, Tail(o)), 7, hist)
Emit == IF Mode = "sim" THEN np = D => PrintT(ToJson(hist)) ELSE (np = N /\ Hash % Stride = Off1) => PrintT(ToJson(hist))
\* what the specification itself must satisfy: every point that must be painted is one that may be
Cov == np > 0 => LET o == hist[Len(hist)] IN o[1] = "dr" =>
         LET d == SetDp(D0, Tail(hist[Len(hist)-1]))  v == Fresh(20, 20, 0)
             gs == ObjP(d, v, o[4], o, 5)
         IN \A i \in 1..Len(gs) : \A p \in MustPts(v, gs[i]) : May(p, gs[i])
Laws == Mode = "sim" \/ Cov
=============================================================================
