----------------------------- MODULE PolylineMC -----------------------------
(* Model checking of Polyline and generation of histories for the real code. *)
(* hist is the history; every history of length D is emitted (as JSON).      *)
EXTENDS Polyline, Json
CONSTANTS D,        \* length of the emitted histories
          Full      \* TRUE: all slots and the whole operation set (simulation)
VARIABLES st, hist
vars == <<st, hist>>

CShapes == {   \* closed outlines: convex, concave, with redundant vertices, crossing, with a spike, flat
  << <<0,0>>, <<4,0>>, <<4,2>>, <<0,2>> >>,
  << <<0,0>>, <<2,0>>, <<4,0>>, <<4,4>>, <<1,4>>, <<1,1>>, <<0,1>> >>,
  << <<3,1>>, <<0,0>>, <<-2,3>> >>,
  << <<0,0>>, <<4,4>>, <<4,0>>, <<0,4>> >>,
  << <<0,0>>, <<5,0>>, <<3,0>>, <<3,3>> >>,
  << <<0,0>>, <<2,2>>, <<4,4>>, <<0,4>>, <<-4,0>>, <<-2,0>> >>,
  << <<1,1>>, <<3,3>> >> }
OShapes == {
  << <<0,0>>, <<1,0>>, <<3,0>>, <<3,2>> >>,
  << <<2,2>>, <<0,0>> >>,
  << <<0,0>>, <<2,1>>, <<0,2>>, <<2,3>>, <<4,4>>, <<4,4>> >>,
  << <<0,3>>, <<0,1>>, <<0,-2>>, <<5,-2>>, <<7,-2>>, <<0,3>> >>,
  << <<1,1>>, <<-1,1>>, <<-3,1>>, <<-3,-2>> >> }
ShapesOf(cl) == IF cl THEN CShapes ELSE OShapes
SetOp(s, q) == << "set", s, 0, Len(q) >> \o FlattenSeq(q)

Qs(s) == { <<w, s>> : w \in Queries }
Mods1(s) ==    \* modifiers of one slot, few parameters
  { <<"tr", s, 3, -1, 0>>, <<"tr", s, 0, 2, 1>>, <<"mv", s, 1, 2, 0>>, <<"mv", s, -2, 0, 1>>,
    <<"rot", s, 0, 0>>, <<"rot", s, 3, 1>>, <<"rotc", s, 1, 2, 1, 0>>, <<"roto", s, 1, 1>>, <<"roto", s, 2, 0>>,
    <<"min", s>>, <<"clr", s>>, <<"edit", s, 1, 7, 5>>, <<"edit", s, 0, -1, -1>>,
    <<"set", s, 0, 3, 0, 0, 6, 0, 0, 3>>, <<"set", s, 2, 2, 0, 0, 0, 0>>, <<"set", s, 1, 1, 5, 5>>,
    <<"hom", s, 0, -1, 2, 1, 0, 1, 0>>, <<"hom", s, 1, 1, 0, 0, 1, 0, 1>>,
    <<"setrect", s, 0, 1, 1, 5, 3>>, <<"para", s, 3, 0, 0, 3, 0, 4, 2>> }
Two(s, t) == { <<"asg", s, t>>, <<"cpy", s, t>>, <<"eq", s, t>>, <<"ne", s, t>>, <<"conv", s, t>>, <<"swp", s, t>>, <<"sib", s, t, 1, 1, 1>>, <<"sib", s, t, 0, 0, 0>> }
\* the small operation set: everything on slot 1 (and its partner, slot 2)
SmallOps == Qs(1) \cup Mods1(1) \cup Two(1,2) \cup { <<"eq", 2, 1>>, <<"qobs", 1>>, <<"asg", 1, 1>> }

P3 == -3..3
\* for simulation: one random parameter choice per operation kind and step
RandOps ==
  LET s == RandomElement(Slots)  t == RandomElement(Slots)
      x == RandomElement(-9..9)  y == RandomElement(-9..9)
      k == RandomElement(0..4)   i == RandomElement(0..6)
      sh == RandomElement(ShapesOf(st.cl[s]))
  IN { <<"tr", s, x, y, i % 3>>, <<"mv", s, x, y, i % 3>>, <<"rot", s, k, i % 2>>, <<"rotc", s, k, x, y, i % 3>>,
       <<"roto", s, k, i>>, <<"min", s>>, <<"clr", s>>, <<"edit", s, i, x, y>>,
       << "set", s, RandomElement(0..4), Len(sh) >> \o FlattenSeq(sh),
       <<"setrect", s, i % 2, x, y, RandomElement(-9..9), RandomElement(-9..9)>>,
       <<"para", s, 3, x, y, RandomElement(-5..5), RandomElement(-5..5), k, i>>,
       <<"hom", s, RandomElement({-2,0,1,2}), 1, x, -1, RandomElement(0..2), y, i % 2>>,
       <<"asg", s, t>>, <<"cpy", s, t>>, <<"swp", s, t>>, <<"conv", s, t>>, <<"eq", s, t>>, <<"ne", t, s>>,
       <<"sib", s, t, i, k % 2, i % 2>>, <<"sib", s, t, k, i % 2, k % 2>>, <<"eq", t, s>>,
       <<"qobs", s>>, <<RandomElement(Queries), s>>, <<RandomElement(Queries), t>>, <<RandomElement(Queries), s>>,
       <<"qpt", s, i>>, <<"qseg", s, i>> }
SmallCoord(q) == \A i \in 1..Len(q) : Abs(q[i][1]) <= 60 /\ Abs(q[i][2]) <= 60

Begin(c) == << "begin", IF c[1] THEN 1 ELSE 0, IF c[2] THEN 1 ELSE 0, IF c[3] THEN 1 ELSE 0 >>
Init ==
  \E c \in (IF Full THEN { <<TRUE,TRUE,FALSE>>, <<FALSE,FALSE,TRUE>>, <<TRUE,FALSE,TRUE>> }
                   ELSE { <<TRUE,TRUE,FALSE>>, <<FALSE,FALSE,TRUE>> }) :
   \E q \in ShapesOf(c[1]) :
    LET s0 == [ InitSt EXCEPT !.cl = c ]
        o1 == SetOp(1, q)
        o2 == SetOp(2, IF c[2] THEN << <<0,0>>, <<0,2>>, <<4,2>>, <<4,0>> >> ELSE << <<3,2>>, <<3,0>>, <<1,0>>, <<0,0>> >>)
    IN /\ hist = << Begin(c), o1, o2 >>
       /\ st = Step(Step(s0, o1), o2)
Next ==
  /\ Len(hist) < D + 3
  /\ \E o \in (IF Full THEN RandOps ELSE SmallOps) :
       /\ hist' = Append(hist, o)
       /\ st' = Step(st, o)
       /\ \A s \in Slots : SmallCoord(st'.p[s])
Spec == Init /\ [][Next]_vars

Emit == (Len(hist) = D + 3) => PrintT(ToJson(Append(Append(Append(hist, <<"qobs",1>>), <<"qobs",2>>), <<"qobs",3>>)))

(*------------- what the specification itself must satisfy ---------------*)
Areas(q) == Abs(Area2(q))
TypeOK == \A s \in Slots : ValidPts(st.p[s]) \/ ~st.cl[s]
\* minimizing is idempotent, keeps area and box, and leaves no redundant vertex
MinOK == \A s \in Slots :
  LET q == st.p[s]  m == Minimized(q, st.cl[s])
  IN /\ Redundant(m, st.cl[s]) = {}
     /\ Minimized(m, st.cl[s]) = m
     /\ Area2(m) = Area2(q)
     /\ Len(q) > 0 => BBox(m) = BBox(q)
\* turns: inverses, involutions; measures are invariant; start and direction do not matter
TurnOK == \A s \in Slots :
  LET q == st.p[s]  T(k, w) == MapPts(w, LAMBDA x : TurnAbout(k, x, <<2,-1>>))
  IN /\ T(0, T(1, q)) = q /\ T(2, q) = T(0, T(0, q)) /\ T(3, T(3, q)) = q /\ T(4, T(4, q)) = q
     /\ T(3, T(4, q)) = T(2, q)
     /\ Areas(T(0, q)) = Areas(q) /\ Areas(T(3, q)) = Areas(q)
     /\ Len(q) > 2 => \A k \in 1..2 :
          /\ SameFig(RotSeq(q,k), q, TRUE) /\ SameFig(RevSeq(q), q, TRUE)
          /\ SimplePoly(RotSeq(q,k)) = SimplePoly(q) /\ SimplePoly(RevSeq(q)) = SimplePoly(q)
          /\ ConvexPoly(RevSeq(RotSeq(q,k))) = ConvexPoly(q)
          /\ Areas(RevSeq(RotSeq(q,k))) = Areas(q)
\* a simple polygon of positive area contains a point just inside one of its convex vertices
SimpleArea == \A s \in Slots : SimplePoly(st.p[s]) => Areas(st.p[s]) > 0
=============================================================================
