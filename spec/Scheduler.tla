----------------------------- MODULE Scheduler -----------------------------
(* What a user of pion::scheduler can rely on, as a state machine over the  *)
(* public calls.  A call is invoked, takes effect at one moment (shutdown:  *)
(* two, the beginning and the end of the stop) and returns.                 *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES
  run,      \* the scheduler is running
  stop,     \* the shutdown call that is stopping it, 0 if none
  users,    \* number of active users
  num,      \* configured number of threads
  sess,     \* number of threads of this session
  epoch,    \* number of this session
  pend,     \* open calls: [c, op, j, v, ph]   ph: "called" -> ("stopping") -> "done", r: result
  alive,    \* worker threads that exist
  busy,     \* {<<worker, job>>}
  posted,   \* {<<job, session>>}: session 0 when posted while not running
  begun,    \* jobs that have started
  ended,    \* jobs that have ended
  home      \* {<<session, service, worker>>}: where the jobs of a service ran
svars == <<run, stop, users, num, sess, epoch, pend, alive, busy, posted, begun, ended, home>>

SInit(n) == /\ run = FALSE /\ stop = 0 /\ users = 0 /\ num = n /\ sess = 0 /\ epoch = 0
            /\ pend = {} /\ alive = {} /\ busy = {} /\ posted = {} /\ begun = {} /\ ended = {} /\ home = {}

Invoke(c, op, j, v) ==
  /\ ~(\E p \in pend : p.c = c)
  /\ pend' = pend \cup {[c |-> c, op |-> op, j |-> j, v |-> v, ph |-> "called", r |-> 0]}
  /\ UNCHANGED <<run, stop, users, num, sess, epoch, alive, busy, posted, begun, ended, home>>

Step(p, ph, r) == pend' = (pend \ {p}) \cup {[p EXCEPT !.ph = ph, !.r = r]}

\* the scheduler is running from here on
Running == IF run THEN UNCHANGED <<run, sess, epoch>> ELSE run' = TRUE /\ sess' = num /\ epoch' = epoch + 1

EffStartup(p) == /\ p.op = "S" /\ stop = 0 /\ Running /\ Step(p, "done", 0)
                 /\ UNCHANGED <<stop, users, num, alive, busy, posted, begun, ended, home>>
EffAdd(p) == /\ p.op = "A" /\ stop = 0 /\ Running /\ users' = users + 1 /\ Step(p, "done", 0)
             /\ UNCHANGED <<stop, num, alive, busy, posted, begun, ended, home>>
EffRemove(p) == /\ p.op = "R" /\ users' = users - 1 /\ Step(p, "done", 0)
                /\ UNCHANGED <<run, stop, num, sess, epoch, alive, busy, posted, begun, ended, home>>
\* shutdown begins only when every user has left ...
EffStop(p) == /\ p.op = "D" /\ stop = 0 /\ (run => users = 0)
              /\ IF run THEN run' = FALSE /\ stop' = p.c /\ Step(p, "stopping", 0)
                        ELSE UNCHANGED <<run, stop>> /\ Step(p, "done", 0)
              /\ UNCHANGED <<users, num, sess, epoch, alive, busy, posted, begun, ended, home>>
\* ... and is over only when every thread has ended
EffStopped(p) == /\ p.op = "D" /\ p.ph = "stopping" /\ alive = {} /\ busy = {} /\ stop = p.c
                 /\ stop' = 0 /\ Step(p, "done", 0)
                 /\ UNCHANGED <<run, users, num, sess, epoch, alive, busy, posted, begun, ended, home>>
EffJoin(p) == /\ p.op = "J" /\ ~run /\ stop = 0 /\ Step(p, "done", 0)
              /\ UNCHANGED <<run, stop, users, num, sess, epoch, alive, busy, posted, begun, ended, home>>
EffQuery(p) == /\ p.op = "Q" /\ Step(p, "done", IF run THEN 1 ELSE 0)
               /\ UNCHANGED <<run, stop, users, num, sess, epoch, alive, busy, posted, begun, ended, home>>
EffNum(p) == /\ p.op = "N" /\ num' = p.v /\ Step(p, "done", 0)
             /\ UNCHANGED <<run, stop, users, sess, epoch, alive, busy, posted, begun, ended, home>>
EffPost(p) == /\ p.op = "P" /\ posted' = posted \cup {<<p.j, IF run THEN epoch ELSE 0>>} /\ Step(p, "done", 0)
              /\ UNCHANGED <<run, stop, users, num, sess, epoch, alive, busy, begun, ended, home>>
Effect == \/ \E p \in pend : p.ph = "called" /\ (EffStartup(p) \/ EffAdd(p) \/ EffRemove(p) \/ EffStop(p) \/ EffJoin(p) \/ EffQuery(p) \/ EffNum(p) \/ EffPost(p))
          \/ \E p \in pend : EffStopped(p)

Return(c, r) == \E p \in pend : /\ p.c = c /\ p.ph = "done" /\ p.r = r /\ pend' = pend \ {p}
                                /\ UNCHANGED <<run, stop, users, num, sess, epoch, alive, busy, posted, begun, ended, home>>

WorkerStart(w) == /\ run /\ w \notin alive /\ Cardinality(alive) < sess /\ alive' = alive \cup {w}
                  /\ UNCHANGED <<run, stop, users, num, sess, epoch, pend, busy, posted, begun, ended, home>>
WorkerEnd(w) == /\ w \in alive /\ ~run /\ ~(\E b \in busy : b[1] = w) /\ alive' = alive \ {w}
                /\ UNCHANGED <<run, stop, users, num, sess, epoch, pend, busy, posted, begun, ended, home>>
\* a job starts once, on an idle worker; the jobs of one service always on the same one
JobStart(j, w, v) == /\ (run \/ stop # 0) /\ w \in alive /\ ~(\E b \in busy : b[1] = w)
                     /\ \E x \in posted : x[1] = j
                     /\ j \notin begun
                     /\ v > 0 => \A h \in home : h[1] = epoch /\ h[2] = v => h[3] = w
                     /\ begun' = begun \cup {j} /\ busy' = busy \cup {<<w, j>>}
                     /\ home' = IF v > 0 THEN home \cup {<<epoch, v, w>>} ELSE home
                     /\ UNCHANGED <<run, stop, users, num, sess, epoch, pend, alive, posted, ended>>
JobEnd(j, w) == /\ <<w, j>> \in busy /\ busy' = busy \ {<<w, j>>} /\ ended' = ended \cup {j}
                /\ UNCHANGED <<run, stop, users, num, sess, epoch, pend, alive, posted, begun, home>>

\* nothing can happen any more without a new call: what may then still be waiting
Quiet == /\ \A p \in pend : \/ p.op = "D" /\ p.ph = "called" /\ run /\ users > 0
                            \/ p.op = "J" /\ p.ph = "called" /\ run
         /\ stop = 0 /\ busy = {}
         /\ IF run THEN /\ Cardinality(alive) = sess
                        /\ \A x \in posted : x[2] = epoch => x[1] \in ended
                   ELSE alive = {}

----------------------------------------------------------------------------
(* invariants of the state machine itself, checked in SchedulerMC *)
STypeOK == /\ users >= 0 /\ epoch >= 0 /\ (run => epoch > 0) /\ ~(run /\ stop # 0)
           /\ Cardinality({p \in pend : p.ph = "stopping"}) <= 1
           /\ Cardinality(busy) <= Cardinality(alive)
           /\ ended \subseteq begun
NothingAfterStop == ~run /\ stop = 0 => alive = {} /\ busy = {}
=============================================================================
