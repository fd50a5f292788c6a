-------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Two runs of one program, in builds that differ by options not meant to    *)
(* change any answer, taken as one system: every step of one is a step of     *)
(* the other with the same observations.  n counts the steps gone through.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
InitSt == [ n |-> 0, over |-> FALSE ]
\* e.x, e.y: what the two runs recorded; <<>>: that run has come to an end
Ended(x) == DOMAIN x = {}
Accepts(st, e) == /\ ~st.over
                  /\ DOMAIN e.x = DOMAIN e.y
                  /\ Ended(e.x) \/ \A k \in DOMAIN e.x : e.x[k] = e.y[k]
Apply(st, e) == IF e.op = "begin" THEN InitSt ELSE [ n |-> st.n + 1, over |-> Ended(e.x) ]
=============================================================================
