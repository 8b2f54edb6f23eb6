---------------------------- MODULE TcpServerMC ----------------------------
(* The design of src/tcp_server.cpp: a mutex, a pool that also holds the     *)
(* connection that waits to be accepted, worker threads that run completion  *)
(* handlers, and a caller that starts and stops the server again and again.  *)
(* Design:                                                                   *)
(*  "checked"  a connection accepted while stopping is not handed over       *)
(*  "late"     it is: stop() may have been too early to close it             *)
(*  "locked"   connections that stay open are handed back under the mutex    *)
(*  "unpooled" a connection enters the pool when it was accepted             *)
(*  "blind"    stopping without waiting leaves the connections open          *)
EXTENDS Integers, FiniteSets
CONSTANTS Workers, Conns, Clients, Rounds, Keeps, Design
VARIABLES lis, port, mutex, pool, st, killed, handed, count, todo, w, at, s, wait, line, left, rounds, kept
vars == <<lis, port, mutex, pool, st, killed, handed, count, todo, w, at, s, wait, line, left, rounds, kept>>
(* st: "new", "waiting" to be accepted, "taken" (its completion is in todo), "open", "reading", "gone";  todo: completions [c, what] *)
Init == /\ lis = FALSE /\ port = FALSE /\ mutex = 0 /\ pool = {} /\ st = [c \in Conns |-> "new"] /\ killed = {} /\ handed = [c \in Conns |-> 0] /\ count = 0
        /\ todo = {} /\ w = [t \in Workers |-> "idle"] /\ at = [t \in Workers |-> 0] /\ s = "down" /\ wait = FALSE /\ line = 0 /\ left = Clients /\ rounds = 0 /\ kept = [c \in Conns |-> 0]
Free(t) == mutex = 0 \/ mutex = t
Goto(t, p) == w' = [w EXCEPT ![t] = p]
Fresh == CHOOSE c \in Conns : st[c] = "new"
Left == {c \in Conns : st[c] = "new"}
(* listen(): under the mutex; a new connection waits to be accepted *)
Listen(t) == IF lis /\ Left # {} THEN LET c == Fresh IN st' = [st EXCEPT ![c] = "waiting"] /\ pool' = (IF Design = "unpooled" THEN pool ELSE pool \cup {c}) ELSE UNCHANGED <<st, pool>>
(* ------------------------------ the network ----------------------------- *)
Client == /\ port /\ left > 0 /\ line' = line + 1 /\ left' = left - 1 /\ UNCHANGED <<lis, port, mutex, pool, st, killed, handed, count, todo, w, at, s, wait, rounds, kept>>
Accepted == /\ port /\ line > 0 /\ \E c \in Conns : st[c] = "waiting" /\ st' = [st EXCEPT ![c] = "taken"] /\ todo' = todo \cup {<<c, "accept">>} /\ line' = line - 1
            /\ UNCHANGED <<lis, port, mutex, pool, killed, handed, count, w, at, s, wait, left, rounds, kept>>
Hangup == \E c \in Conns : /\ st[c] = "reading" /\ c \notin killed /\ killed' = killed \cup {c} /\ todo' = todo \cup {<<c, "read">>}
                           /\ UNCHANGED <<lis, port, mutex, pool, st, handed, count, w, at, s, wait, line, left, rounds, kept>>
(* ------------------------------ the workers ----------------------------- *)
Take(t) == w[t] = "idle" /\ \E x \in todo : /\ todo' = todo \ {x} /\ at' = [at EXCEPT ![t] = x[1]]
              /\ Goto(t, CASE x[2] = "accept" -> IF Design = "late" THEN "listen" ELSE "check" [] x[2] = "abort" -> "finish" [] OTHER -> "finish")
              /\ UNCHANGED <<lis, port, mutex, pool, st, killed, handed, count, s, wait, line, left, rounds, kept>>
Check(t) == w[t] = "check" /\ Free(t) /\ Goto(t, IF lis THEN "listen" ELSE "finish") /\ UNCHANGED <<lis, port, mutex, pool, st, killed, handed, count, todo, at, s, wait, line, left, rounds, kept>>
More(t) == w[t] = "listen" /\ Free(t) /\ Listen(t) /\ Goto(t, IF Design = "unpooled" THEN "pool" ELSE "handle") /\ UNCHANGED <<lis, port, mutex, killed, handed, count, todo, at, s, wait, line, left, rounds, kept>>
Pool(t) == w[t] = "pool" /\ Free(t) /\ pool' = pool \cup {at[t]} /\ Goto(t, "handle") /\ UNCHANGED <<lis, port, mutex, st, killed, handed, count, todo, at, s, wait, line, left, rounds, kept>>
Handle(t) == w[t] = "handle" /\ st' = [st EXCEPT ![at[t]] = "open"] /\ handed' = [handed EXCEPT ![at[t]] = @ + 1] /\ Goto(t, "app") /\ UNCHANGED <<lis, port, mutex, pool, killed, count, todo, at, s, wait, line, left, rounds, kept>>
\* what the application does: finish, keep the connection, read until the end
App(t) == LET c == at[t] IN w[t] = "app" /\ UNCHANGED <<lis, port, pool, handed, count, at, s, wait, line, left, rounds, killed>> /\
          (\/ Goto(t, "finish") /\ UNCHANGED <<st, kept, todo, mutex>>
           \/ kept[c] < Keeps /\ kept' = [kept EXCEPT ![c] = @ + 1] /\ Goto(t, "keep") /\ UNCHANGED <<st, todo, mutex>>
           \/ st' = [st EXCEPT ![c] = "reading"] /\ todo' = (IF c \in killed THEN todo \cup {<<c, "read">>} ELSE todo) /\ Goto(t, "return") /\ UNCHANGED <<kept, mutex>>)
Return(t) == w[t] = "return" /\ mutex' = (IF mutex = t THEN 0 ELSE mutex) /\ Goto(t, "idle") /\ at' = [at EXCEPT ![t] = 0] /\ UNCHANGED <<lis, port, pool, st, killed, handed, count, todo, s, wait, line, left, rounds, kept>>
Again(t) == w[t] = "keep" /\ mutex = 0 /\ UNCHANGED <<lis, port, pool, st, killed, handed, count, todo, at, s, wait, line, left, rounds, kept>>
            /\ IF lis THEN Goto(t, "handle") /\ mutex' = (IF Design = "locked" THEN t ELSE 0) ELSE Goto(t, "finish") /\ UNCHANGED mutex
\* a worker that holds the mutex waits for itself
Finish(t) == w[t] = "finish" /\ mutex = 0 /\ pool' = pool \ {at[t]} /\ st' = [st EXCEPT ![at[t]] = "gone"] /\ Goto(t, "return") /\ UNCHANGED <<lis, port, mutex, killed, handed, count, todo, at, s, wait, line, left, rounds, kept>>
(* ------------------------------ the caller ------------------------------ *)
Start == s = "down" /\ rounds < Rounds /\ mutex = 0 /\ port' = TRUE /\ lis' = TRUE /\ rounds' = rounds + 1 /\ s' = "started" /\ UNCHANGED <<mutex, pool, st, killed, handed, count, todo, w, at, wait, line, left, kept>>
First == s = "started" /\ mutex = 0 /\ Listen(0) /\ s' = "up" /\ UNCHANGED <<lis, port, mutex, killed, handed, count, todo, w, at, wait, line, left, rounds, kept>>
Stop == s = "up" /\ mutex = 0 /\ \E b \in BOOLEAN :
        LET acc == {c \in Conns : st[c] = "waiting"}
            cut == IF b \/ Design = "blind" THEN {} ELSE {c \in pool : st[c] \in {"taken", "open", "reading"} /\ <<c, "accept">> \notin todo} IN   \* (a connection has no socket until its completion runs)
        /\ lis' = FALSE /\ port' = FALSE /\ line' = 0 /\ wait' = b /\ s' = "stopping"
        /\ st' = [c \in Conns |-> IF c \in acc THEN "taken" ELSE st[c]] /\ killed' = killed \cup cut
        /\ todo' = todo \cup {<<c, "abort">> : c \in acc} \cup {<<c, "read">> : c \in {x \in cut : st[x] = "reading" /\ x \notin killed}}
        /\ UNCHANGED <<mutex, pool, handed, count, w, at, left, rounds, kept>>
Down == s = "stopping" /\ mutex = 0 /\ pool = {} /\ s' = "down" /\ UNCHANGED <<lis, port, mutex, pool, st, killed, handed, count, todo, w, at, wait, line, left, rounds, kept>>
Server == \E t \in Workers : Take(t) \/ Check(t) \/ More(t) \/ Pool(t) \/ Handle(t) \/ App(t) \/ Return(t) \/ Again(t) \/ Finish(t)
Next == Client \/ Accepted \/ Hangup \/ Server \/ Start \/ First \/ Stop \/ Down
Spec == Init /\ [][Next]_vars
(* what is promised *)
Open == {c \in Conns : st[c] \in {"open", "reading"}}
NoneLeft == s = "down" => Open = {} /\ ~port
Pooled == \A c \in Open : c \in pool
Closed == s = "stopping" /\ ~wait => Open \subseteq killed
\* a stop that does not wait comes to an end without the clients' help, and so does one that waits once they leave
Busy == ENABLED Server \/ ENABLED Accepted
Ends == s = "stopping" /\ ~Busy => ENABLED Down \/ (wait /\ \E c \in Open : c \notin killed)
Serves == s = "up" /\ ~Busy => line = 0 \/ Left = {}
\* at rest the count is what get_connections() computes: the pool without the one waiting
Counts == s = "up" /\ ~Busy => Cardinality(pool \cap Open) = Cardinality(pool) - Cardinality({c \in Conns : st[c] = "waiting"}) /\ Cardinality({c \in Conns : st[c] = "waiting"}) \in {1, IF Left = {} THEN 0 ELSE 1}
=============================================================================
