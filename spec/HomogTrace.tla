---------------------------- MODULE HomogTrace ----------------------------
(* Validates recorded executions of the real code against Homog.  Every   *)
(* episode ("begin" event) is one initial state; an event the specification  *)
(* does not allow is printed as REJECT and ends its episode.                 *)
EXTENDS Homog, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == { i \in 1..Len(Trace) : Trace[i].op = "begin" }
VARIABLES l, st
Init == l \in Starts /\ st = Apply(InitSt, Trace[l])
Next == /\ l < Len(Trace)
        /\ Trace[l+1].op # "begin"
        /\ IF Accepts(st, Trace[l+1])
           THEN l' = l + 1 /\ st' = Apply(st, Trace[l+1])
           ELSE PrintT(<<"REJECT", l+1>>) /\ FALSE
Spec == Init /\ [][Next]_<<l,st>>
=============================================================================
