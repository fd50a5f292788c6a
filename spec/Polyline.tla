------------------------------ MODULE Polyline ------------------------------
(***************************************************************************)
(* The polyline objects of the library: three slots, each an open or closed *)
(* polyline, and every operation of the public interface that builds,       *)
(* changes, compares or queries one.  The abstract state of a polyline is   *)
(* its vertex sequence, nothing else: no operation may depend on (or leave  *)
(* behind) anything but that.  Operations are <<name, args...>> with         *)
(* integer arguments, e.g. <<"tr", slot, dx, dy, variant>>.                 *)
(* Used by P01 (history), P02 (equality), P03 (minimize), P04 (turns),      *)
(* P05 (measures), P24, P30.                                                *)
(***************************************************************************)
EXTENDS Geom

Slots == 1..3
InitSt == [ cl |-> << TRUE, TRUE, FALSE >>, p |-> << <<>>, <<>>, <<>> >> ]

DecPts(a, from, n) == [ i \in 1..n |-> << a[from + 2*i - 2], a[from + 2*i - 1] >> ]
FlatPts(q) == FlattenSeq(q)

\* requests that must be refused: one point, or equal neighbours (last and first included)
ValidPts(q) == /\ Len(q) # 1
               /\ Len(q) > 1 => \A i \in 1..Len(q) : q[i] # q[Nxt(i,Len(q))]

MapPts(q, F(_)) == [ i \in 1..Len(q) |-> F(q[i]) ]

(***************************************************************************)
(* Result of a modifying operation: [ok: accepted or refused, p: the new    *)
(* vertex sequence of slot s].  kind "skip": the operation does not apply.  *)
(***************************************************************************)
Res(k, q) == [ k |-> k, p |-> q ]
Effect(st, name, a) ==
  LET s == a[1]
      q == st.p[s]
      n == Len(q)
  IN CASE name = "set" ->
            LET w == DecPts(a, 4, a[3])
            IN IF ValidPts(w) THEN Res("ok", w) ELSE Res("throw", q)
       [] name = "setrect" ->
            IF ~st.cl[s] THEN Res("skip", q)
            ELSE IF a[3] = a[5] \/ a[4] = a[6] THEN Res("throw", q)
            ELSE Res("ok", RectPts(MkRect(a[3],a[4],a[5],a[6])))
       [] name = "para" ->
            IF ~st.cl[s] THEN Res("skip", q)
            ELSE LET w == DecPts(a, 3, 3)
                 IN IF Cross(w[1], w[2], w[3]) = 0 THEN Res("throw", q)
                    ELSE Res("ok", << w[1], w[2], w[3], Add(w[1], Sub(w[3], w[2])) >>)
       [] name = "tr"   -> Res("ok", MapPts(q, LAMBDA x : Add(x, <<a[2],a[3]>>)))
       [] name = "mv"   -> IF n = 0 THEN Res("throw", q)
                           ELSE Res("ok", MapPts(q, LAMBDA x : Add(x, Sub(<<a[2],a[3]>>, q[1]))))
       [] name = "rot"  -> Res("ok", MapPts(q, LAMBDA x : Turn(a[2], x)))
       [] name = "rotc" -> Res("ok", MapPts(q, LAMBDA x : TurnAbout(a[2], x, <<a[3],a[4]>>)))
       [] name = "roto" -> IF a[3] >= n THEN Res("skip", q)
                           ELSE Res("ok", MapPts(q, LAMBDA x : TurnAbout(a[2], x, q[a[3]+1])))
       [] name = "min"  -> Res("ok", Minimized(q, st.cl[s]))
       [] name = "clr"  -> Res("ok", <<>>)
       [] name \in {"asg","cpy","swp"} ->
            IF st.cl[s] # st.cl[a[2]] THEN Res("skip", q) ELSE Res("ok", st.p[a[2]])
       [] name = "conv" ->
            IF ~st.cl[s] /\ st.cl[a[2]] THEN Res("skip", q) ELSE Res("ok", st.p[a[2]])
       [] name = "sib"  ->        \* built anew from the vertices of slot a[2], from another start or end
            LET w == st.p[a[2]]
                r == IF st.cl[s] /\ Len(w) > 0 THEN RotSeq(w, a[3] % Len(w)) ELSE w
            IN IF s = a[2] \/ st.cl[s] # st.cl[a[2]] THEN Res("skip", q)
               ELSE IF ValidPts(r) THEN Res("ok", IF a[4] # 0 THEN RevSeq(r) ELSE r)
               ELSE Res("throw", q)
       [] name = "edit" ->
            LET x == <<a[3],a[4]>>  i == a[2] + 1
            IN IF i > n THEN Res("skip", q)
               ELSE IF q[Nxt(i,n)] = x \/ q[Prv(i,n)] = x THEN Res("skip", q)
               ELSE Res("ok", [ q EXCEPT ![i] = x ])
       [] name = "hom"  ->       \* a map that makes neighbours coincide yields nothing: refused
            LET w == MapPts(q, LAMBDA x : << a[2]*x[1] + a[3]*x[2] + a[4], a[5]*x[1] + a[6]*x[2] + a[7] >>)
            IN IF ValidPts(w) THEN Res("ok", w) ELSE Res("throw", q)

Modifiers == { "set", "setrect", "para", "tr", "mv", "rot", "rotc", "roto", "min", "clr",
               "asg", "cpy", "swp", "conv", "edit", "hom", "sib" }

(*------------------------- what queries must answer ----------------------*)
LengthOk(v, q, closed) ==
  LET ns  == NbSegs(q, closed)
      tot == SumSeq([ i \in 1..ns |-> ISqrt(D2(q[i], q[Nxt(i,Len(q))]) * (LS*LS)) ])
  IN v >= tot - 1 /\ v <= tot + ns + 1
AreaOf(q, closed) == IF closed /\ SimplePoly(q) THEN Abs(Area2(q)) ELSE 0
CenOk(v, q) ==     \* computed relative to the first vertex
  LET a3 == 3 * Area2(q)
  IN FxOk(v[1] - q[1][1]*S, CenNum(q,1), a3) /\ FxOk(v[2] - q[1][2]*S, CenNum(q,2), a3)
BBAvail(q) == Len(q) >= 2 /\ HasArea(BBox(q))
\* a segment lists its smaller end first (same abscissa: up to rounding, either may come first)
SegOk(v, a, b) == LET sp == SortPair(a, b)
                  IN \/ PtOk(v[1], sp[1]) /\ PtOk(v[2], sp[2])
                     \/ a[1] = b[1] /\ PtOk(v[1], sp[2]) /\ PtOk(v[2], sp[1])
SegsOk(v, q, closed) ==
  /\ Len(v) = NbSegs(q, closed)
  /\ \A i \in 1..Len(v) : SegOk(v[i], q[i], q[Nxt(i,Len(q))])
OSegsOk(v, q, closed) ==
  /\ Len(v) = NbSegs(q, closed)
  /\ \A i \in 1..Len(v) : PtOk(v[i][1], q[i]) /\ PtOk(v[i][2], q[Nxt(i,Len(q))])

QueryOk(st, e, what) ==
  LET s == e.a[1]  q == st.p[s]  cl == st.cl[s]
  IN CASE what = "qn" -> e.n = Len(q) /\ e.ns = NbSegs(q,cl) /\ e.closed = cl /\ e.n2 = e.n /\ e.ns2 = e.ns
       [] what = "qlen" -> LengthOk(e.len, q, cl) /\ e.len2 = e.len
       [] what = "qarea" -> Near(2 * e.area, AreaOf(q,cl) * S, 6) /\ e.area2 = e.area
       [] what = "qsimple" -> e.simple = (cl /\ SimplePoly(q)) /\ e.simple2 = e.simple
       [] what = "qconvex" -> e.convex = (cl /\ ConvexPoly(q)) /\ e.convex2 = e.convex
       [] what = "qcen" -> IF cl /\ SimplePoly(q)
                           THEN ~e.cenT /\ CenOk(e.cen, q) /\ ~e.cenbT /\ CenOk(e.cenb, q)
                           ELSE e.cenT /\ e.cenbT
       [] what = "qbb" -> IF BBAvail(q)
                          THEN ~e.bbT /\ RectOk(e.bb, BBox(q)) /\ ~e.bbbT /\ e.bbb = e.bb
                          ELSE e.bbT /\ e.bbbT
       [] what = "qsegs" -> SegsOk(e.segs, q, cl) /\ OSegsOk(e.osegs, q, cl)
Queries == { "qn", "qlen", "qarea", "qsimple", "qconvex", "qcen", "qbb", "qsegs" }

(***************************************************************************)
(* Is the recorded event e a step the specification allows in state st?     *)
(* e.v / e.w: vertices of the slots involved, read after the operation.     *)
(***************************************************************************)
Crashed(e) == "r" \in DOMAIN e /\ e.r = "crash"
ModOk(st, e) ==
  LET x == Effect(st, e.op, e.a)
  IN IF x.k = "any" THEN TRUE
     ELSE /\ e.r = x.k
          /\ PtsOk(e.v, x.p)
          /\ e.op = "swp" /\ x.k = "ok" => PtsOk(e.w, st.p[e.a[1]])
          /\ e.op \in {"asg","cpy","conv","sib"} => PtsOk(e.w, st.p[e.a[2]])
\* a comparison may list the vertices of the same figure from another start
CmpOk(st, e) ==
  LET s == e.a[1]  t == e.a[2]
      same == st.cl[s] = st.cl[t] /\ SameFig(st.p[s], st.p[t], st.cl[s])
  IN /\ e.b = (IF e.op = "eq" THEN same ELSE ~same)
     /\ IntegralPts(e.v) /\ SameFig(RoundPts(e.v), st.p[s], st.cl[s])
     /\ IntegralPts(e.w) /\ SameFig(RoundPts(e.w), st.p[t], st.cl[t])

Accepts(st, e) ==
  /\ ~Crashed(e)
  /\ CASE e.op \in Modifiers    -> ModOk(st, e)
       [] e.op \in {"eq","ne"}  -> CmpOk(st, e)
       [] e.op = "qobs" -> (\A w \in Queries : QueryOk(st, e, w)) /\ PtsOk(e.v, st.p[e.a[1]])
       [] e.op \in Queries -> QueryOk(st, e, e.op) /\ PtsOk(e.v, st.p[e.a[1]])
       [] e.op = "qpt" -> /\ e.ptT = (e.a[2] >= Len(st.p[e.a[1]]))
                          /\ ~e.ptT => PtOk(e.pt, st.p[e.a[1]][e.a[2]+1])
       [] e.op = "qseg" -> LET q == st.p[e.a[1]]  i == e.a[2] + 1
                               no == i > NbSegs(q, st.cl[e.a[1]])
                           IN /\ e.sgT = no /\ e.osT = no
                              /\ ~no => LET j == Nxt(i,Len(q))
                                        IN /\ SegOk(e.sg, q[i], q[j])
                                           /\ PtOk(e.os[1],q[i]) /\ PtOk(e.os[2],q[j])

\* the state after an accepted event
Apply(st, e) ==
  CASE e.op = "begin" -> [ cl |-> [ i \in 1..3 |-> e.a[i] # 0 ], p |-> << <<>>, <<>>, <<>> >> ]
    [] e.op = "swp" /\ e.r = "ok" ->
         [ st EXCEPT !.p[e.a[1]] = st.p[e.a[2]], !.p[e.a[2]] = st.p[e.a[1]] ]
    [] e.op \in Modifiers \ {"swp"} -> [ st EXCEPT !.p[e.a[1]] = RoundPts(e.v) ]
    [] e.op \in {"eq","ne"} -> [ st EXCEPT !.p[e.a[2]] = RoundPts(e.w), !.p[e.a[1]] = RoundPts(e.v) ]
    [] OTHER -> st

\* the same step taken by the model itself (no recorded values: the plain result)
Step(st, o) ==
  LET a == Tail(o)
  IN CASE o[1] = "swp" -> [ st EXCEPT !.p[a[1]] = st.p[a[2]], !.p[a[2]] = st.p[a[1]] ]
       [] o[1] \in Modifiers \ {"swp"} -> [ st EXCEPT !.p[a[1]] = Effect(st, o[1], a).p ]
       [] OTHER -> st
=============================================================================
