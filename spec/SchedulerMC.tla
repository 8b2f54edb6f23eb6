---------------------------- MODULE SchedulerMC ----------------------------
(* The locking design of src/scheduler.cpp: one mutex, two condition          *)
(* variables, worker threads that are joined by shutdown.  It refines         *)
(* Scheduler (what users see) and never gets stuck.  Design selects variants  *)
(* of the design with known defects; TLC must find each of them.              *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Callers, Calls, Num, MaxJobs, Design
None == 0
Workers == 100..(99 + Num)
VARIABLES pc, op, left, own, mtx, mrun, mstop, musers, wst, queue, born, posted, begun, ended, epoch, sess, busy, job
vars == <<pc, op, left, own, mtx, mrun, mstop, musers, wst, queue, born, posted, begun, ended, epoch, sess, busy, job>>
Init == /\ pc = [t \in Callers |-> "idle"] /\ op = [t \in Callers |-> "-"] /\ left = [t \in Callers |-> Calls] /\ own = [t \in Callers |-> 0]
        /\ mtx = None /\ mrun = FALSE /\ mstop = 0 /\ musers = 0 /\ wst = [w \in Workers |-> "none"] /\ queue = {} /\ born = 0
        /\ posted = {} /\ begun = {} /\ ended = {} /\ epoch = 0 /\ sess = 0 /\ busy = {} /\ job = [t \in Callers |-> 0]
Free(t) == mtx = None \/ mtx = t
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
\* notify_all on a condition variable
Wake(q, f) == [t \in Callers |-> IF f[t] = q THEN "again" ELSE f[t]]
Entry(o) == CASE o = "S" -> "S" [] o = "A" -> "A" [] o = "R" -> "R" [] o = "D" -> "D" [] o = "J" -> "J" [] o = "P" -> "P"

Choose(t) == /\ pc[t] = "idle" /\ left[t] > 0
             /\ \E o \in {"S", "A", "R", "D", "J", "P"} :
                  /\ o \in {"R", "P"} => own[t] > 0
                  /\ o \in {"D", "J"} => own[t] = 0
                  /\ o = "P" => born < MaxJobs
                  /\ op' = [op EXCEPT ![t] = o] /\ Goto(t, Entry(o))
                  /\ IF o = "P" THEN born' = born + 1 /\ job' = [job EXCEPT ![t] = born + 1] ELSE UNCHANGED <<born, job>>
             /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ UNCHANGED <<own, mtx, mrun, mstop, musers, wst, queue, posted, begun, ended, epoch, sess, busy>>
After(t) == IF op[t] = "A" /\ Design = "late" THEN "A3" ELSE "done"
\* startup()
Startup(t) == /\ (pc[t] \in {"S", "A2"} \/ (pc[t] = "again" /\ op[t] \in {"S", "A"})) /\ Free(t)
              /\ IF mstop # 0 THEN Goto(t, "wStop") /\ UNCHANGED <<mrun, mtx, epoch, sess>>
                 ELSE IF mrun THEN Goto(t, After(t)) /\ UNCHANGED <<mrun, mtx, epoch, sess>>
                 ELSE Goto(t, "make") /\ mrun' = TRUE /\ mtx' = t /\ epoch' = epoch + 1 /\ sess' = Num
              /\ UNCHANGED <<op, left, own, mstop, musers, wst, queue, born, posted, begun, ended, busy, job>>
Make(t) == /\ pc[t] = "make"
           /\ IF \E w \in Workers : wst[w] = "none"
              THEN wst' = [wst EXCEPT ![CHOOSE w \in Workers : wst[w] = "none"] = "idle"] /\ UNCHANGED <<pc, mtx>>
              ELSE Goto(t, After(t)) /\ mtx' = None /\ UNCHANGED wst
           /\ UNCHANGED <<op, left, own, mrun, mstop, musers, queue, born, posted, begun, ended, epoch, sess, busy, job>>
\* add_active_user(): register, then start if necessary ("late": look first, register later)
Add(t) == /\ pc[t] = "A" /\ Free(t)
          /\ IF Design = "late"
             THEN IF mrun THEN Goto(t, "A3") /\ UNCHANGED musers ELSE Goto(t, "A2") /\ UNCHANGED musers
             ELSE musers' = musers + 1 /\ Goto(t, IF mrun THEN "done" ELSE "A2")
          /\ UNCHANGED <<op, left, own, mtx, mrun, mstop, wst, queue, born, posted, begun, ended, epoch, sess, busy, job>>
AddLate(t) == /\ pc[t] = "A3" /\ Free(t) /\ musers' = musers + 1 /\ Goto(t, "done")
              /\ UNCHANGED <<op, left, own, mtx, mrun, mstop, wst, queue, born, posted, begun, ended, epoch, sess, busy, job>>
Remove(t) == /\ pc[t] = "R" /\ Free(t) /\ musers' = musers - 1
             /\ pc' = [(IF musers = 1 THEN Wake("wUser", pc) ELSE pc) EXCEPT ![t] = "done"]
             /\ UNCHANGED <<op, left, own, mtx, mrun, mstop, wst, queue, born, posted, begun, ended, epoch, sess, busy, job>>
Shutdown(t) == /\ (pc[t] = "D" \/ (pc[t] = "again" /\ op[t] = "D")) /\ Free(t)
               /\ IF mstop # 0 THEN Goto(t, "wStop") /\ UNCHANGED <<mrun, mstop, mtx>>
                  ELSE IF mrun /\ musers > 0 THEN Goto(t, "wUser") /\ UNCHANGED <<mrun, mstop, mtx>>
                  ELSE IF mrun THEN Goto(t, "join") /\ mrun' = FALSE /\ mstop' = t /\ mtx' = IF Design = "hold" THEN t ELSE None
                  ELSE pc' = [Wake("wStop", pc) EXCEPT ![t] = "done"] /\ UNCHANGED <<mrun, mstop, mtx>>
               /\ UNCHANGED <<op, left, own, musers, wst, queue, born, posted, begun, ended, epoch, sess, busy, job>>
Joined(t) == /\ pc[t] = "join" /\ Free(t) /\ \A w \in Workers : wst[w] = "none"
             /\ mstop' = 0 /\ mtx' = None
             /\ pc' = [(IF Design = "mute" THEN pc ELSE Wake("wStop", pc)) EXCEPT ![t] = "done"]
             /\ UNCHANGED <<op, left, own, mrun, musers, wst, queue, born, posted, begun, ended, epoch, sess, busy, job>>
Join(t) == /\ (pc[t] = "J" \/ (pc[t] = "again" /\ op[t] = "J")) /\ Free(t)
           /\ Goto(t, IF mrun \/ mstop # 0 THEN "wStop" ELSE "done")
           /\ UNCHANGED <<op, left, own, mtx, mrun, mstop, musers, wst, queue, born, posted, begun, ended, epoch, sess, busy, job>>
Post(t) == /\ pc[t] = "P" /\ Free(t) /\ queue' = queue \cup {job[t]} /\ posted' = posted \cup {<<job[t], IF mrun THEN epoch ELSE 0>>}
           /\ Goto(t, "done")
           /\ UNCHANGED <<op, left, own, mtx, mrun, mstop, musers, wst, born, begun, ended, epoch, sess, busy, job>>
Ret(t) == /\ pc[t] = "done" /\ Goto(t, "idle") /\ op' = [op EXCEPT ![t] = "-"]
          /\ own' = [own EXCEPT ![t] = IF op[t] = "A" THEN @ + 1 ELSE IF op[t] = "R" THEN @ - 1 ELSE @]
          /\ UNCHANGED <<left, mtx, mrun, mstop, musers, wst, queue, born, posted, begun, ended, epoch, sess, busy, job>>
\* workers: take a job, perhaps post another (which takes the mutex), finish; leave when not running
Take(w) == /\ wst[w] = "idle" /\ mrun /\ queue # {}
           /\ LET j == CHOOSE x \in queue : TRUE IN queue' = queue \ {j} /\ begun' = begun \cup {j} /\ busy' = busy \cup {<<w, j>>}
           /\ wst' = [wst EXCEPT ![w] = "job"]
           /\ UNCHANGED <<pc, op, left, own, mtx, mrun, mstop, musers, born, posted, ended, epoch, sess, job>>
\* the job enters post() and needs the mutex to go on
Want(w) == /\ wst[w] = "job" /\ born < MaxJobs /\ wst' = [wst EXCEPT ![w] = "want"] /\ born' = born + 1
           /\ UNCHANGED <<pc, op, left, own, mtx, mrun, mstop, musers, queue, posted, begun, ended, epoch, sess, busy, job>>
Nest(w) == /\ wst[w] = "want" /\ Free(w) /\ wst' = [wst EXCEPT ![w] = "job"]
           /\ UNCHANGED <<pc, op, left, own, mtx, mrun, mstop, musers, queue, born, posted, begun, ended, epoch, sess, busy, job>>
Finish(w) == /\ wst[w] = "job" /\ \E b \in busy : b[1] = w /\ busy' = busy \ {b} /\ ended' = ended \cup {b[2]}
             /\ wst' = [wst EXCEPT ![w] = "idle"]
             /\ UNCHANGED <<pc, op, left, own, mtx, mrun, mstop, musers, queue, born, posted, begun, epoch, sess, job>>
Leave(w) == /\ wst[w] = "idle" /\ ~mrun /\ wst' = [wst EXCEPT ![w] = "none"]
            /\ UNCHANGED <<pc, op, left, own, mtx, mrun, mstop, musers, queue, born, posted, begun, ended, epoch, sess, busy, job>>
Internal == \/ \E t \in Callers : Startup(t) \/ Make(t) \/ Add(t) \/ AddLate(t) \/ Remove(t) \/ Shutdown(t) \/ Joined(t) \/ Join(t) \/ Post(t) \/ Ret(t)
            \/ \E w \in Workers : Take(w) \/ Want(w) \/ Nest(w) \/ Finish(w) \/ Leave(w)
Next == Internal \/ \E t \in Callers : Choose(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal)

\* ---- the abstract state this stands for
Phase(t) == CASE pc[t] \in {"done", "make"} -> "done" [] pc[t] = "join" -> "stopping" [] OTHER -> "called"
APend == {[c |-> t, op |-> op[t], j |-> IF op[t] = "P" THEN job[t] ELSE 0, v |-> 0, ph |-> Phase(t), r |-> 0] : t \in {x \in Callers : pc[x] # "idle"}}
AUsers == musers - Cardinality({t \in Callers : op[t] = "A" /\ pc[t] \in {"A2", "wStop", "again"} /\ Design # "late"})
Abs == INSTANCE Scheduler WITH run <- mrun, stop <- mstop, users <- AUsers, num <- Num, pend <- APend,
         alive <- {w \in Workers : wst[w] # "none"}, home <- {}
AbsNext == \/ \E t \in Callers, o \in {"S", "A", "R", "D", "J", "P"}, j \in 0..MaxJobs : Abs!Invoke(t, o, j, 0)
           \/ Abs!Effect
           \/ \E t \in Callers : Abs!Return(t, 0)
           \/ \E w \in Workers : Abs!WorkerStart(w) \/ Abs!WorkerEnd(w)
           \/ \E w \in Workers, j \in 1..MaxJobs : Abs!JobStart(j, w, 0) \/ Abs!JobEnd(j, w)
Refines == [][AbsNext]_Abs!svars
Safe == Abs!STypeOK /\ Abs!NothingAfterStop
\* whenever nothing moves by itself, what waits may wait
Rest == ~ENABLED Internal => Abs!Quiet
\* nothing moves forever
Settles == []<>(~ENABLED Internal)
\* a shutdown ends once the users are gone for good
Ends == \A t \in Callers : (op[t] = "D" /\ ~mrun) ~> (op[t] # "D" \/ mrun)
=============================================================================
