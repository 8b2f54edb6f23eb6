------------------------------ MODULE Timeout ------------------------------
(* Reading with a time limit. A connection on which a message is awaited is  *)
(* given up when nothing arrives for T milliseconds (and no later than SLACK *)
(* after that), never earlier, never while a message is being handled, and   *)
(* never because of the limit of an earlier read; a message that was given   *)
(* up is reported as failed. T = 0: no limit.                                *)
(*   Case: T, Len[k] length of the k-th message, Head[k] of its head,        *)
(*   Keep[k], Hold[k] (the handler answers later), Until[k] (ends with the   *)
(*   connection); Srv: a server (responses, failures are not reported)       *)
EXTENDS Naturals, Sequences
VARIABLES case, now, conn, run
tmvars == <<case, now, conn, run>>
SLACK == 1000
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Fresh == [st |-> "reading", sent |-> 0, read |-> 0, fin |-> FALSE, finseen |-> FALSE, intime |-> FALSE, done |-> 0, since |-> now, mode |-> "live", resp |-> 0]
TmInit(k) == case = k /\ now = 0 /\ conn = <<>> /\ run = FALSE
Total == SumTo(case.Len, Len(case.Len))
Unread(x) == x.sent > x.read \/ (x.fin /\ ~x.finseen)
Complete(x) == x.done < Len(case.Len) /\ x.sent >= SumTo(case.Len, x.done + 1) /\ ~case.Until[x.done + 1]
Limit(x) == case.T > 0 /\ x.st = "reading"
\* may, must, must not be given up when the server gets to run
Verdict(x) == IF ~Limit(x) \/ now < x.since + case.T THEN "live"
              ELSE IF Unread(x) THEN (IF x.intime THEN "live" ELSE "either")
              ELSE IF now >= x.since + case.T + SLACK THEN "dying" ELSE "either"
Open == ~run /\ conn' = Append(conn, Fresh) /\ run' = TRUE /\ UNCHANGED <<case, now>>
Arrive(x) == [x EXCEPT !.intime = @ \/ ~Limit(x) \/ now < x.since + case.T]
Send(c, n) == ~run /\ conn' = [conn EXCEPT ![c] = Arrive([@ EXCEPT !.sent = @ + n])] /\ UNCHANGED <<case, now, run>>
Fin(c) == ~run /\ conn' = [conn EXCEPT ![c] = Arrive([@ EXCEPT !.fin = TRUE])] /\ UNCHANGED <<case, now, run>>
Advance(n) == ~run /\ now' = now + n /\ UNCHANGED <<case, conn, run>>
Run == ~run /\ run' = TRUE /\ conn' = [c \in DOMAIN conn |-> [conn[c] EXCEPT !.mode = Verdict(conn[c])]] /\ UNCHANGED <<case, now>>
\* the next message is awaited from now on
After(x, k) == IF case.Keep[k] THEN [x EXCEPT !.st = "reading", !.since = now, !.mode = "live"] ELSE [x EXCEPT !.st = "closed"]
Answered(x) == After([x EXCEPT !.resp = @ + (IF case.Srv THEN 1 ELSE 0)], x.done)
Reply(c) == ~run /\ conn[c].st = "handling" /\ run' = TRUE
            /\ conn' = [d \in DOMAIN conn |-> IF d = c THEN Answered(conn[c]) ELSE [conn[d] EXCEPT !.mode = Verdict(conn[d])]] /\ UNCHANGED <<case, now>>
Done(c, ok, err, n) ==
  /\ run /\ conn[c].st = "reading" /\ UNCHANGED <<case, now, run>>
  /\ LET x == conn[c]  k == x.done + 1
         seen == [x EXCEPT !.read = x.sent, !.finseen = x.fin] IN
     \/ /\ ok /\ err = "none" /\ x.mode # "dying" /\ k <= Len(case.Len)
        /\ IF case.Until[k] THEN x.fin /\ x.sent >= SumTo(case.Len, k - 1) + case.Head[k] /\ n = x.sent - SumTo(case.Len, k - 1) - case.Head[k]
           ELSE Complete(x) /\ n = case.Len[k] - case.Head[k]
        /\ LET y == [seen EXCEPT !.done = k] IN conn' = [conn EXCEPT ![c] = IF case.Hold[k] THEN [y EXCEPT !.st = "handling"] ELSE Answered(y)]
     \/ /\ ~ok /\ err # "none" /\ x.mode # "live" /\ ~case.Srv /\ conn' = [conn EXCEPT ![c].st = "closed"]
     \/ /\ ~ok /\ err \in {"eof", "none"} /\ x.mode # "dying" /\ x.fin /\ ~Complete(x) /\ ~case.Srv /\ conn' = [conn EXCEPT ![c].st = "closed"]
\* the server has nothing left to do: what its clients see
Settled(x, eof) ==
  IF x.st = "reading" /\ ((x.mode = "dying") \/ (x.mode = "either" /\ eof) \/ (x.fin /\ ~Complete(x))) /\ case.Srv THEN [x EXCEPT !.st = "closed"]
  ELSE IF x.st = "reading" THEN [x EXCEPT !.since = IF Unread(x) THEN now ELSE @, !.read = x.sent, !.finseen = x.fin, !.intime = FALSE, !.mode = "live"]
  ELSE [x EXCEPT !.intime = FALSE]
Rest(g, e) ==
  /\ run /\ run' = FALSE /\ UNCHANGED <<case, now>>
  /\ conn' = [c \in DOMAIN conn |-> Settled(conn[c], e[c])]
  /\ \A c \in DOMAIN conn :
       LET x == conn'[c] IN
       /\ g[c] = x.resp /\ (e[c] <=> x.st = "closed")
       /\ x.st = "reading" => ~Complete(x) /\ ~x.fin /\ (case.T > 0 => now < x.since + case.T + SLACK)
TmTypeOK == \A c \in DOMAIN conn : conn[c].read <= conn[c].sent /\ conn[c].done <= Len(case.Len)
=============================================================================
