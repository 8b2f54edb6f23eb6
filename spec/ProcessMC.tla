----------------------------- MODULE ProcessMC -----------------------------
(* The design of src/process.cpp: flag, mutex and condition variable; the    *)
(* signal handler runs on top of whatever a thread was doing.  Design:       *)
(*  "flag"  the handler only sets a flag, waits look at it from time to time *)
(*  "lock"  the handler calls shutdown(), which takes the mutex              *)
(*  "once"  like flag, but waits never look again                            *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Signals, Design
VARIABLES pc, below, held, now, caught, sent
vars == <<pc, below, held, now, caught, sent>>
\* pc: where the thread is; below: where it was when a signal handler interrupted it ("-": no handler is running)
Init == /\ pc \in [Threads -> {"wait", "shut", "none"}] /\ below = [t \in Threads |-> "-"] /\ held = 0 /\ now = FALSE /\ caught = FALSE /\ sent = 0
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Lock(t) == /\ held = 0 /\ held' = t
           /\ \/ pc[t] = "wait" /\ Goto(t, "check")
              \/ pc[t] = "shut" /\ Goto(t, "set")
              \/ pc[t] = "hshut" /\ Goto(t, "hset")
              \/ pc[t] = "woken" /\ Goto(t, "check")
           /\ UNCHANGED <<below, now, caught, sent>>
Check(t) == /\ pc[t] = "check"
            /\ IF now \/ caught THEN Goto(t, "out") ELSE Goto(t, "sleep")
            /\ held' = 0 /\ now' = (now \/ caught) /\ UNCHANGED <<below, caught, sent>>
WakeAll(f) == [t \in Threads |-> IF f[t] = "sleep" THEN "woken" ELSE f[t]]
WakeBelow == [t \in Threads |-> IF below[t] = "sleep" THEN "woken" ELSE below[t]]
Set(t) == /\ pc[t] \in {"set", "hset"} /\ now' = TRUE /\ held' = 0
          /\ pc' = [WakeAll(pc) EXCEPT ![t] = IF pc[t] = "set" THEN "out" ELSE "hout"] /\ below' = WakeBelow
          /\ UNCHANGED <<caught, sent>>
Timeout(t) == /\ pc[t] = "sleep" /\ Design # "once" /\ (now \/ caught)   \* a timeout that finds nothing changes nothing
              /\ Goto(t, "woken") /\ UNCHANGED <<below, held, now, caught, sent>>
Signal(t) == /\ sent < Signals /\ below[t] = "-" /\ sent' = sent + 1
             /\ below' = [below EXCEPT ![t] = pc[t]] /\ Goto(t, IF Design = "lock" THEN "hshut" ELSE "hflag")
             /\ UNCHANGED <<held, now, caught>>
Flag(t) == pc[t] = "hflag" /\ caught' = TRUE /\ Goto(t, "hout") /\ UNCHANGED <<below, held, now, sent>>
Back(t) == pc[t] = "hout" /\ Goto(t, below[t]) /\ below' = [below EXCEPT ![t] = "-"] /\ UNCHANGED <<held, now, caught, sent>>
Internal == \E t \in Threads : Lock(t) \/ Check(t) \/ Set(t) \/ Timeout(t) \/ Flag(t) \/ Back(t)
Next == Internal \/ \E t \in Threads : Signal(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal)
\* at rest: everybody is done, or waits although nothing was requested
Rest == ~ENABLED Internal => \A t \in Threads : pc[t] \in {"out", "none"} \/ (pc[t] = "sleep" /\ ~now /\ ~caught)
OnlyIf == \A t \in Threads : (pc[t] = "out" \/ below[t] = "out") => now \/ caught
Settles == <>[](~ENABLED Internal)
=============================================================================
