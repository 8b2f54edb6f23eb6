----------------------------- MODULE TimeoutMC -----------------------------
(* Why an expiring timer can only end the read it was made for: reads, their *)
(* timers and the handlers of both, run by several threads. A timer is       *)
(* cancelled by the handler of its read; its callback may be on its way by   *)
(* then. Designs: sound; noflag (the callback does not ask whether the timer *)
(* was cancelled), nomutex (it asks, but not under the lock), nocancel (a    *)
(* finished read leaves its timer running), oneshot (only the first read has *)
(* a timer), early (the old timer is cancelled after the next read started)  *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Reads, Design
VARIABLES op, by, read, timer, pc, lock
vars == <<op, by, read, timer, pc, lock>>
\* op: the read in progress; timer[r]: none, armed, due (its callback waits for a thread), called, over
Init == op = "pending" /\ by = 0 /\ read = 1 /\ timer = [r \in 1..Reads |-> [st |-> IF r = 1 THEN "armed" ELSE "none", off |-> FALSE]] /\ pc = [t \in Threads |-> <<"idle", 0>>] /\ lock = [r \in 1..Reads |-> 0]
Arrives == op = "pending" /\ op' = "ok" /\ UNCHANGED <<by, read, timer, pc, lock>>
Expires(r) == timer[r].st = "armed" /\ timer' = [timer EXCEPT ![r].st = "due"] /\ UNCHANGED <<op, by, read, pc, lock>>
Idle(t) == pc[t][1] = "idle"
\* the handler of the read: cancel its timer, then the next read with the next timer
TakeRead(t) == Idle(t) /\ op \in {"ok", "aborted"} /\ pc' = [pc EXCEPT ![t] = <<IF op = "aborted" THEN "stop" ELSE IF Design = "early" THEN "next" ELSE "cancel", read>>] /\ op' = (IF op = "aborted" THEN "over" ELSE "handled") /\ UNCHANGED <<by, read, timer, lock>>
Off(r) == timer' = [timer EXCEPT ![r] = IF Design = "nocancel" THEN @ ELSE [st |-> IF @.st = "armed" THEN "due" ELSE @.st, off |-> TRUE]]
CancelTimer(t) == LET r == pc[t][2] IN
  /\ pc[t][1] \in {"cancel", "stop", "late"} /\ lock[r] = 0 /\ Off(r)
  /\ pc' = [pc EXCEPT ![t] = IF pc[t][1] = "cancel" THEN <<"next", r>> ELSE <<"idle", 0>>] /\ UNCHANGED <<op, by, read, lock>>
Next1(t) == LET r == pc[t][2] IN
  /\ pc[t][1] = "next" /\ pc' = [pc EXCEPT ![t] = IF Design = "early" THEN <<"late", r>> ELSE <<"idle", 0>>]
  /\ IF r < Reads THEN read' = r + 1 /\ op' = "pending" /\ timer' = [timer EXCEPT ![r + 1].st = IF Design = "oneshot" THEN "none" ELSE "armed"] ELSE op' = "over" /\ UNCHANGED <<read, timer>>
  /\ UNCHANGED <<by, lock>>
\* the callback of a timer
TakeTimer(t, r) == Idle(t) /\ timer[r].st = "due" /\ timer' = [timer EXCEPT ![r].st = "called"] /\ pc' = [pc EXCEPT ![t] = <<"ask", r>>] /\ UNCHANGED <<op, by, read, lock>>
Ask(t) == LET r == pc[t][2] IN
  /\ pc[t][1] = "ask" /\ lock[r] = 0 /\ UNCHANGED <<op, by, read>>
  /\ IF timer[r].off /\ Design # "noflag" THEN pc' = [pc EXCEPT ![t] = <<"idle", 0>>] /\ timer' = [timer EXCEPT ![r].st = "over"] /\ UNCHANGED lock
     ELSE pc' = [pc EXCEPT ![t] = <<"fire", r>>] /\ UNCHANGED timer /\ lock' = IF Design = "nomutex" THEN lock ELSE [lock EXCEPT ![r] = t]
Fire(t) == LET r == pc[t][2] IN
  /\ pc[t][1] = "fire" /\ pc' = [pc EXCEPT ![t] = <<"idle", 0>>] /\ timer' = [timer EXCEPT ![r].st = "over"] /\ lock' = [lock EXCEPT ![r] = 0] /\ UNCHANGED read
  /\ IF op = "pending" THEN op' = "aborted" /\ by' = r ELSE UNCHANGED <<op, by>>
Next == Arrives \/ (\E r \in 1..Reads : Expires(r)) \/ \E t \in Threads : TakeRead(t) \/ CancelTimer(t) \/ Next1(t) \/ Ask(t) \/ Fire(t) \/ \E r \in 1..Reads : TakeTimer(t, r)
Fair == \A t \in Threads : WF_vars(TakeRead(t) \/ CancelTimer(t) \/ Next1(t) \/ Ask(t) \/ Fire(t) \/ \E r \in 1..Reads : TakeTimer(t, r))
Spec == Init /\ [][Next]_vars /\ Fair /\ \A r \in 1..Reads : WF_vars(Expires(r))
\* a read is given up only by its own timer
Own == op = "aborted" => by = read
\* a read that waits is watched, so it ends even if nothing ever arrives
Ends == <>[](op = "over")
=============================================================================
