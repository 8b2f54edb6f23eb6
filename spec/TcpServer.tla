------------------------------ MODULE TcpServer -----------------------------
(* What a user of pion::tcp::server can rely on: which connections it has,  *)
(* who gets them, and what starting, stopping and waiting mean.             *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANT K          \* clients are 1..K
VARIABLES
  lis,    \* the server is listening
  acc,    \* its port takes connections
  block,  \* somebody else has the port
  pend,   \* open calls [c, op, k, s, ph, r]
  cl,     \* clients' connections
  srv,    \* the client of every connection handed to the handler, in order
  line    \* clients whose connections wait to be accepted
tvars == <<lis, acc, block, pend, cl, srv, line>>
NoConn == [st |-> "none", owed |-> FALSE, killed |-> FALSE, data |-> 0, closed |-> FALSE, reading |-> FALSE, dropped |-> FALSE]
TInit == lis = FALSE /\ acc = FALSE /\ block = FALSE /\ pend = {} /\ cl = [k \in 1..K |-> NoConn] /\ srv = << >> /\ line = << >>
In(S) == {k \in 1..K : cl[k].st \in S}
Held == In({"taken", "open"})          \* the server has them
Invoke(c, op, k, s) == /\ ~(\E p \in pend : p.c = c) /\ pend' = pend \cup {[c |-> c, op |-> op, k |-> k, s |-> s, ph |-> "called", r |-> 0]} /\ UNCHANGED <<lis, acc, block, cl, srv, line>>
To(p, ph, r) == pend' = (pend \ {p}) \cup {[p EXCEPT !.ph = ph, !.r = r]}
Return(c, r) == \E p \in pend : p.c = c /\ p.ph = "done" /\ p.r = r /\ pend' = pend \ {p} /\ UNCHANGED <<lis, acc, block, cl, srv, line>>

(* ------------------------------- starting ------------------------------ *)
StartNot(p)  == p.op = "S" /\ p.ph = "called" /\ lis /\ To(p, "done", 0) /\ UNCHANGED <<lis, acc, block, cl, srv, line>>
BeforeStarting == \E p \in pend : p.op = "S" /\ p.ph = "called" /\ ~lis /\ (~\E q \in pend : q.op = "S" /\ q.ph \notin {"called", "done"}) /\ To(p, "bind", 0) /\ UNCHANGED <<lis, acc, block, cl, srv, line>>
StartFail(p) == p.op = "S" /\ p.ph = "bind" /\ block /\ To(p, "done", -1) /\ UNCHANGED <<lis, acc, block, cl, srv, line>>
StartOpen(p) == p.op = "S" /\ p.ph = "bind" /\ ~block /\ acc' = TRUE /\ To(p, "bound", 0) /\ UNCHANGED <<lis, block, cl, srv, line>>
StartOn(p)   == p.op = "S" /\ p.ph = "bound" /\ lis' = TRUE /\ To(p, "done", 0) /\ UNCHANGED <<acc, block, cl, srv, line>>

(* ------------------------------- stopping ------------------------------ *)
Stops == {"T", "W", "Z"}      \* T, Z (the destructor): closing connections;  W: waiting for them
StopNot(p)  == p.op \in Stops /\ p.ph = "called" /\ ~lis /\ To(p, "done", 0) /\ UNCHANGED <<lis, acc, block, cl, srv, line>>
StopOff(p)  == p.op \in Stops /\ p.ph = "called" /\ lis /\ lis' = FALSE /\ To(p, "off", 0) /\ UNCHANGED <<acc, block, cl, srv, line>>
StopPort(p) == p.op \in Stops /\ p.ph = "off" /\ acc' = FALSE /\ line' = << >>
               /\ cl' = [k \in 1..K |-> IF cl[k].st = "queued" THEN [cl[k] EXCEPT !.st = "reset"]
                                       ELSE IF k \in Held /\ p.op # "W" THEN [cl[k] EXCEPT !.killed = TRUE] ELSE cl[k]]
               /\ To(p, "wait", 0) /\ UNCHANGED <<lis, block, srv>>
\* stopped when every connection is gone
AfterStopping == \E p \in pend : p.op \in {"T", "W"} /\ p.ph = "wait" /\ Held = {} /\ To(p, "done", 0) /\ UNCHANGED <<lis, acc, block, cl, srv, line>>
Destroyed(p) == p.op = "Z" /\ p.ph = "wait" /\ Held = {} /\ To(p, "done", 0) /\ UNCHANGED <<lis, acc, block, cl, srv, line>>
\* the scheduler ends when the server does not need it
EndScheduler(p) == p.op = "E" /\ p.ph = "called" /\ ~lis /\ Held = {} /\ (\A q \in pend : q.op \in Stops => q.ph # "off") /\ To(p, "done", 0) /\ UNCHANGED <<lis, acc, block, cl, srv, line>>
Join(p) == p.op = "J" /\ p.ph = "called" /\ ~lis /\ To(p, "done", 0) /\ UNCHANGED <<lis, acc, block, cl, srv, line>>

(* ----------------------------- connections ----------------------------- *)
Connect(p) == p.op = "C" /\ p.ph = "called" /\ UNCHANGED <<lis, acc, block, srv>>
              /\ IF acc THEN cl' = [cl EXCEPT ![p.k].st = "queued"] /\ line' = Append(line, p.k) /\ To(p, "done", 1) ELSE UNCHANGED <<cl, line>> /\ To(p, "done", 0)
Change(k, r) == cl' = [cl EXCEPT ![k] = r] /\ UNCHANGED <<lis, acc, block, pend, srv, line>>
\* connections are accepted in order; one may be on its way to the server when it stops
Accept == line # << >> /\ acc /\ LET k == Head(line) IN
            /\ line' = Tail(line) /\ cl' = [cl EXCEPT ![k].st = IF lis THEN "open" ELSE "taken", ![k].owed = lis]
            /\ (~lis => In({"taken"}) = {} /\ \E p \in pend : p.op \in Stops /\ p.ph = "off")
            /\ UNCHANGED <<lis, acc, block, pend, srv>>
Count(k)  == cl[k].st = "taken" /\ Change(k, [cl[k] EXCEPT !.st = "open", !.owed = TRUE])
Refuse(k) == cl[k].st = "taken" /\ ~lis /\ Change(k, [cl[k] EXCEPT !.st = "gone"])
Prune(k)  == cl[k].st = "open" /\ cl[k].dropped /\ Change(k, [cl[k] EXCEPT !.st = "gone"])
\* the handler gets connection number s, which is client k's (0: unknown)
Handle(s, k, fresh) ==
  \E c \in 1..K : /\ k \in {0, c} /\ cl[c].st = "open" /\ cl[c].owed
                  /\ IF fresh THEN s = Len(srv) + 1 /\ (\A i \in 1..Len(srv) : srv[i] # c) /\ srv' = Append(srv, c) ELSE srv[s] = c /\ UNCHANGED srv
                  /\ cl' = [cl EXCEPT ![c].owed = FALSE] /\ UNCHANGED <<lis, acc, block, pend, line>>
Finish(p) == /\ p.op \in {"F", "K"} /\ p.ph = "called" /\ LET k == srv[p.s] IN
                  /\ cl[k].st = "open" /\ ~cl[k].owed
                  /\ cl' = [cl EXCEPT ![k] = IF p.op = "K" /\ lis THEN [@ EXCEPT !.owed = TRUE] ELSE [@ EXCEPT !.st = "gone"]]
             /\ To(p, "done", 0) /\ UNCHANGED <<lis, acc, block, srv, line>>
Count0(p) == /\ p.op = "Q" /\ p.ph = "called" /\ UNCHANGED <<lis, acc, block, cl, srv, line>>
             /\ IF lis THEN To(p, "done", Cardinality(In({"open"})))
                ELSE LET n == Cardinality(Held) IN To(p, "done", n) \/ ((\E q \in pend : q.op \in Stops /\ q.ph \notin {"called", "done"}) /\ To(p, "done", n + 1))  \* the accept being called off
Query(p)  == p.op = "L" /\ p.ph = "called" /\ To(p, "done", IF lis THEN 1 ELSE 0) /\ UNCHANGED <<lis, acc, block, cl, srv, line>>
\* the application's use of a connection
Kept(s) == LET k == srv[s] IN UNCHANGED tvars
Drop(s) == LET k == srv[s] IN Change(k, [cl[k] EXCEPT !.dropped = TRUE])
Read(s) == LET k == srv[s] IN Change(k, [cl[k] EXCEPT !.reading = TRUE])
GotData(s, n) == LET k == srv[s] IN /\ cl[k].reading /\ IF n = 0 THEN cl[k].closed \/ cl[k].killed ELSE cl[k].data >= n
                                    /\ Change(k, [cl[k] EXCEPT !.reading = FALSE, !.data = @ - n])
(* --------------------------- clients, the port ------------------------- *)
Leave(k) == Change(k, [cl[k] EXCEPT !.closed = TRUE])
Write(k) == Change(k, [cl[k] EXCEPT !.data = @ + 1])
Block(p) == p.op = "B" /\ p.ph = "called" /\ UNCHANGED <<lis, acc, cl, srv, line>> /\ ((~acc /\ block' = TRUE /\ To(p, "done", 0)) \/ (UNCHANGED block /\ To(p, "done", -1)))
Unblock(p) == p.op = "U" /\ p.ph = "called" /\ block' = FALSE /\ To(p, "done", 0) /\ UNCHANGED <<lis, acc, cl, srv, line>>

Effect == \/ \E p \in pend : \/ StartNot(p) \/ StartFail(p) \/ StartOpen(p) \/ StartOn(p) \/ StopNot(p) \/ StopOff(p) \/ StopPort(p) \/ Destroyed(p) \/ Join(p) \/ EndScheduler(p)
                             \/ Connect(p) \/ Finish(p) \/ Count0(p) \/ Query(p) \/ Block(p) \/ Unblock(p)
          \/ Accept \/ \E k \in 1..K : Count(k) \/ Refuse(k) \/ Prune(k)
\* nothing can happen any more: only those wait who have to, and everybody was served
Quiet(eof, up) ==
  /\ \A p \in pend : \/ p.op \in {"J", "E"} /\ (lis \/ \E q \in pend : q.op \in Stops /\ q.ph = "wait")
                     \/ p.op \in Stops /\ p.ph = "wait" /\ \E k \in Held : ~cl[k].dropped
  /\ In({"taken"}) = {} /\ (lis => In({"queued"}) = {}) /\ \A k \in In({"open"}) : ~cl[k].owed
  /\ \A k \in In({"open"}) : cl[k].reading => ~cl[k].killed /\ ~cl[k].closed /\ cl[k].data = 0
  /\ \A k \in eof : cl[k].st \in {"gone", "reset"} \/ cl[k].killed
  /\ \A k \in up : cl[k].st \notin {"gone", "reset"} /\ ~cl[k].killed
\* what is promised
Stopped == ~lis /\ \A p \in pend : p.op \in {"S"} \cup Stops => p.ph \in {"called", "done"}
NoneLeft == Stopped => Held = {} /\ ~acc
Ordered == \A i, j \in 1..Len(srv) : i # j => srv[i] # srv[j]
OneStop == Cardinality({p \in pend : p.op \in Stops /\ p.ph \notin {"called", "done"}}) <= 1
TTypeOK == \A k \in 1..K : cl[k].owed => cl[k].st = "open"
=============================================================================
