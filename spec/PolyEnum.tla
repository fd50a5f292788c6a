------------------------------ MODULE PolyEnum ------------------------------
(* Enumeration of every vertex list of N vertices on a W x H grid, open and   *)
(* closed: model checks the invariants of the specification on each, and      *)
(* emits one history per vertex list for the real code.                       *)
(*   Mode "cls": the measures of the list, of a rotation and of the reversal  *)
(*        "min": minimize, before and after queries, twice                    *)
(*        "eq":  comparisons with rotations, reversals and near misses        *)
(*        "in":  a grid of points against the figure (operations of World)    *)
(*        "turn": every full-step rotation and mirror, and back               *)
EXTENDS Polyline, Json
CONSTANTS W, H, N, Mode, Stride, Off
VARIABLES cl, q
vars == <<cl, q>>
Grid == (0..(W-1)) \X (0..(H-1))
Init == cl \in BOOLEAN /\ q = <<>>
Next == /\ Len(q) < N /\ cl' = cl
        /\ \E p \in Grid : /\ (IF q = <<>> THEN TRUE ELSE p # Last(q))
                          /\ (Len(q) = N-1 => ValidPts(Append(q, p)))
                          /\ q' = Append(q, p)
Done == Len(q) = N
Spec == Init /\ [][Next]_vars

Hash == ((FoldLeft(LAMBDA h, p : ((h * 37) + (p[1] * 11) + (p[2] * 5) + 3) % 20011, 7, q) + (IF cl THEN 1 ELSE 0)) % Stride)
B(c) == IF c THEN 1 ELSE 0
SetOp(s, k, w) == << "set", s, k, Len(w) >> \o FlattenSeq(w)
Begin == << "begin", B(cl), B(cl), B(~cl) >>
Variants(w) ==    \* near misses of w that are still valid lists, and same figures
  LET n == Len(w)
  IN { RotSeq(w, k) : k \in 1..(n-1) } \cup { RevSeq(RotSeq(w, k)) : k \in 0..(n-1) }
     \cup { x \in { [ w EXCEPT ![i] = p ] : i \in 1..n, p \in {<<0,0>>, <<1,1>>} } : ValidPts(x) }
     \cup { x \in { [ w EXCEPT ![i] = w[j], ![j] = w[i] ] : i \in 1..n, j \in 1..n } : ValidPts(x) }
     \cup { x \in { SubSeq(w, 1, n-1), Append(w, <<W,H>>), Append(w, w[2]) } : ValidPts(x) }
EqOps(x) == << SetOp(2, 0, x), <<"eq", 1, 2>>, <<"ne", 2, 1>> >>
Hist ==
  CASE Mode = "cls" -> << Begin, SetOp(1, 0, q), <<"qobs", 1>>, SetOp(1, 2, RotSeq(q, 1 + (Hash % (N-1)))), <<"qobs", 1>>,
                          SetOp(2, 1, RevSeq(q)), <<"qobs", 2>> >>
    [] Mode = "min" -> << Begin, SetOp(1, 0, q) >> \o (IF Hash % 2 = 0 THEN << <<"qobs", 1>> >> ELSE <<>>)
                       \o << <<"cpy", 2, 1>>, <<"min", 1>>, <<"qobs", 1>>, <<"min", 1>>, <<"eq", 1, 2>>, SetOp(3, 1, q), <<"min", 3>>, <<"qobs", 3>> >>
    [] Mode = "eq"  -> << Begin, SetOp(1, 0, q), SetOp(3, 2, q), <<"eq", 3, 1>>, <<"eq", 1, 1>> >>
                       \o FlattenSeq([ i \in 1..Cardinality(Variants(q)) |-> EqOps(SetToSeq(Variants(q))[i]) ])
                       \o << <<"qobs", 1>>, <<"qobs", 2>> >>
    [] Mode = "turn" -> << Begin, SetOp(1, 0, q), SetOp(2, 0, q), <<"qobs", 1>> >>
                       \o FlattenSeq([ k \in 1..5 |-> << <<"roto", 1, k-1, Hash % N>>, <<"qlen", 1>>, <<"rotc", 2, k-1, 2, 1, k % 3>> >> ])
                       \o << <<"rot", 1, 0, 0>>, <<"rot", 1, 0, 1>>, <<"rot", 1, 0, 0>>, <<"rot", 1, 0, 0>>, <<"qobs", 1>>, <<"rotc", 2, 2, 2, 1, 0>>, <<"eq", 1, 2>> >>
InHist == << <<"begin">>, <<"new", 1, 7, Hash % 2, N>> \o FlattenSeq(q), <<"ing", 1, -1, -1, (2*Max2(W,H))+1, 1, 2, Hash % 3>> >>
          \o (IF Hash % 3 = 0 THEN << <<"new", 1, 7, 0, N>> \o FlattenSeq(RevSeq(RotSeq(q,1))), <<"ing", 1, -1, -1, (2*Max2(W,H))+1, 1, 2, 0>> >> ELSE <<>>)
Emit == Done /\ (Mode = "in" => cl /\ SimplePoly(q)) /\ Hash = (Off % Stride) => PrintT(ToJson(IF Mode = "in" THEN InHist ELSE Hist))

(*---- invariants of the specification on every enumerated figure ----*)
MinOK == Done => LET m == Minimized(q, cl)
         IN /\ Redundant(m, cl) = {} /\ Minimized(m, cl) = m /\ Area2(m) = Area2(q)
            /\ BBox(m) = BBox(q)
            /\ SimplePoly(m) = SimplePoly(q)
            /\ (cl => SameCycle(Minimized(RotSeq(q,1), TRUE), m))
StartOK == Done /\ cl => \A k \in 0..(N-1) :
            /\ SimplePoly(RotSeq(q,k)) = SimplePoly(q) /\ SimplePoly(RevSeq(q)) = SimplePoly(q)
            /\ ConvexPoly(RevSeq(RotSeq(q,k))) = ConvexPoly(q)
            /\ Abs(Area2(RevSeq(RotSeq(q,k)))) = Abs(Area2(q))
AreaOK == Done /\ SimplePoly(q) =>
            /\ Area2(q) # 0
            \* Pick's theorem: 2A = 2I + B - 2, on the lattice points
            /\ LET bp == { p \in Grid : OnPolyBoundary(p, q) }  ip == { p \in Grid : InPoly(p, q) }
               IN Abs(Area2(q)) = 2 * Cardinality(ip) + Cardinality(bp) - 2
TurnOK == Done => \A k \in 0..4 : \A i \in 1..N : LET T(w) == MapPts(w, LAMBDA x : TurnAbout(k, x, q[i]))
            IN /\ T(q)[i] = q[i] /\ T(T(q)) = (IF k < 2 THEN MapPts(q, LAMBDA x : TurnAbout(2, x, q[i])) ELSE q)
               /\ Abs(Area2(T(q))) = Abs(Area2(q)) /\ SimplePoly(T(q)) = SimplePoly(q)
EqOK == Done => \A x \in Variants(q) : /\ SameFig(q, x, cl) = SameFig(x, q, cl)
                               /\ SameFig(q, x, cl) => Area2(q) \in {Area2(x), -Area2(x)}
=============================================================================
