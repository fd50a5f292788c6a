------------------------------ MODULE OffsetMC ------------------------------
(* Polygons grown edge by edge along directions with integer lengths, closed  *)
(* by one or two edges parallel to the axes.  Mode "enum": all the paths of    *)
(* at most N steps; Mode "sim": random ones, with larger steps.                *)
EXTENDS Offset, Json
CONSTANTS Mode, N, Box, Stride, Off, D
VARIABLES p, done
vars == <<p, done>>
Axis == { <<k,0>> : k \in {-4,-2,-1,1,2,4} } \cup { <<0,k>> : k \in {-4,-2,-1,1,2,4} }
Pyth == { <<3,4>>, <<4,3>>, <<-3,4>>, <<-4,3>>, <<3,-4>>, <<4,-3>>, <<-3,-4>>, <<-4,-3>> }
Big == { <<12,5>>, <<5,12>>, <<-12,5>>, <<8,-6>>, <<-8,6>>, <<6,8>>, <<8,15>>, <<-15,8>>, <<5,-12>>, <<-6,-8>>, <<7,0>>, <<0,-9>>, <<-11,0>>, <<0,10>> }
Start == <<0,0>>
Last1 == p[Len(p)]
In(q) == Abs(q[1]) <= Box /\ Abs(q[2]) <= Box
Init == p = << Start >> /\ done = FALSE
Grow1(s) == LET q == Add(Last1, s) IN In(q) /\ q # Start /\ p' = Append(p, q) /\ done' = FALSE
\* closing: straight home if axis-parallel, or by a corner
Close == /\ Len(p) >= 2
         /\ \/ (Last1[1] = 0 \/ Last1[2] = 0) /\ Len(p) >= 3 /\ p' = p
            \/ Last1[1] # 0 /\ Last1[2] # 0 /\ p' = Append(p, <<Last1[1], 0>>)
            \/ Last1[1] # 0 /\ Last1[2] # 0 /\ p' = Append(p, <<0, Last1[2]>>)
         /\ done' = TRUE
Next == ~done /\ IF Mode = "enum" THEN (Len(p) <= N /\ \E s \in Axis \cup Pyth : Grow1(s)) \/ Close
                 ELSE IF Len(p) < D
                      THEN \E s \in { LET k == RandomElement(1..10) IN RandomElement(IF k <= 5 THEN Axis ELSE IF k <= 8 THEN Pyth ELSE Big) } :
                             IF In(Add(Last1, s)) /\ Add(Last1, s) # Start THEN Grow1(s) ELSE UNCHANGED vars
                      ELSE Close
Spec == Init /\ [][Next]_vars
Hash == FoldLeft(LAMBDA h, x : ((h * 41) + (x[1] * 13) + (x[2] * 7) + 3) % 20011, 5, p)
Poly == done /\ ValidPts(p)
Good == Poly /\ Len(p) >= 3 /\ SimplePoly(p) /\ IntLen(p)
Offs(h) == << <<"off", 1, 1, h % 2>>, <<"off", -1, 2, 0>>, <<"off", (h % 7) - 3, 1 + (h % 3), 1>>, <<"off", -((h % 5) + 1), 4, h % 2>>, <<"off", 2 + (h % 3), 1, (h \div 2) % 2>> >>
Hist(cl) == << <<"begin">>, <<"set", cl, Len(p)>> \o FlattenSeq(p) >> \o Offs(Hash)
            \o << <<"rot", Hash % 5>>, <<"off", -1, 1, 0>>, <<"off", 1, 2, 1>>, <<"tr", 5, -3>>, <<"off", 1, 1, 1>> >>
Emit == (Poly /\ Hash % Stride = Off % Stride /\ (Mode = "enum" \/ Good \/ Hash % 8 = 0)) => PrintT(ToJson(Hist(IF Hash % 16 = 3 THEN 0 ELSE 1)))

(*----------------- what the specification itself must satisfy ------------*)
\* twice the area, scale 10000, of points given with two decimals
A2(v) == LET w == [ i \in 1..Len(v) |-> << v[i][1] \div 100, v[i][2] \div 100 >> ] IN Area2(w)
Ok(num, den, split) == FailSet(p, num, den, split) = {1}
SumT(split, num) == LET q == Corners(p) IN SumSeq([ i \in 1..Len(q) |-> Grow(q[i], num, split) ])
Perim == SumSeq([ i \in 1..Len(p) |-> Lg(p, i) ])
\* area of the parallel curve: A + d P + d^2 sum of tan (half turn), for both signs
SteinerOK == Good =>
  \A num \in {-1, 1} : Ok(num, 2, FALSE) =>
    Abs((Sgn(Area2(p)) * A2(Expected(p, num, 2, FALSE))) - ((Abs(Area2(p)) * 10000) + (num * Perim * 10000) + (SumT(FALSE, num) * 5))) <= (250 * Perim) + 600
\* rounding the corners takes area off, and two points are put at each convex corner
SplitOK == Good /\ Ok(1, 2, TRUE) /\ Ok(1, 2, FALSE) =>
  /\ LET q == Corners(p) IN Len(Expected(p, 1, 2, TRUE)) = Len(q) + Cardinality({ i \in 1..Len(q) : q[i].tn > 0 })
  /\ Sgn(Area2(p)) * A2(Expected(p, 1, 2, TRUE)) < (Sgn(Area2(p)) * A2(Expected(p, 1, 2, FALSE))) + (250 * Perim) + 600
\* the total turn of a simple polygon: more convex than concave turn; at least three convex corners
TurnOK == Good => LET q == Corners(p) IN
                  /\ Cardinality({ i \in 1..Len(q) : q[i].tn > 0 }) >= 3
                  /\ \A i \in 1..Len(q) : q[i].td > 0
\* moving and turning the polygon, or listing it the other way, does not change the outcome
SymOK == Good =>
  \A num \in {-1, 1} :
    LET q == [ i \in 1..Len(p) |-> Turn(3, p[i]) ]  r == RevSeq(p)  ex == Expected(p, num, 2, FALSE)
        im == [ i \in 1..Len(ex) |-> << -ex[i][1], ex[i][2] >> ]
    IN /\ FailSet(p, num, 2, FALSE) = FailSet(q, num, 2, FALSE) /\ FailSet(p, num, 2, FALSE) = FailSet(r, num, 2, FALSE)
       /\ SamePts(im, Expected(q, num, 2, FALSE), 2) /\ SamePts(ex, Expected(r, num, 2, FALSE), 2)
\* inside offsets of a convex polygon are inside (points at scale 100)
InOK == Good /\ ConvexPoly(p) /\ Ok(-1, 2, FALSE) =>
  LET ex == Expected(p, -1, 2, FALSE) IN
  \A i \in 1..Len(ex) : LET z == ex[i]
     IN InPoly(<< z[1] \div 100, z[2] \div 100 >>, [ j \in 1..Len(p) |-> << p[j][1]*100, p[j][2]*100 >> ])
=============================================================================
