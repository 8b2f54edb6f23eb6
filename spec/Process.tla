------------------------------ MODULE Process ------------------------------
(* Waiting for process shutdown: a wait returns if and only if shutdown has *)
(* been requested, by a call or by a termination signal.                    *)
EXTENDS Integers, FiniteSets
VARIABLES req,   \* shutdown has been requested
          pend   \* open calls [c, op, done]: W wait, X shutdown, G signal handler, I install the handlers
pvars == <<req, pend>>
PInit == req = FALSE /\ pend = {}
Invoke(c, op) == /\ ~(\E p \in pend : p.c = c) /\ pend' = pend \cup {[c |-> c, op |-> op, done |-> FALSE]} /\ UNCHANGED req
Finish(p) == pend' = (pend \ {p}) \cup {[p EXCEPT !.done = TRUE]}
Request(p) == p.op \in {"X", "G"} /\ ~p.done /\ req' = TRUE /\ Finish(p)
Install(p) == p.op = "I" /\ ~p.done /\ UNCHANGED req /\ Finish(p)
Released(p) == p.op = "W" /\ ~p.done /\ req /\ UNCHANGED req /\ Finish(p)
Effect == \E p \in pend : Request(p) \/ Install(p) \/ Released(p)
Return(c) == \E p \in pend : p.c = c /\ p.done /\ pend' = pend \ {p} /\ UNCHANGED req
Quiet == \A p \in pend : p.op = "W" /\ ~req
=============================================================================
