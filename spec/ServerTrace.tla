---------------------------- MODULE ServerTrace ----------------------------
(* Histories recorded from the real server, step by step, against           *)
(* HttpServer.tla.                                                           *)
EXTENDS HttpServer, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, verdict
vars == <<n, verdict>>
Judge(r) ==
  LET cs == {r.steps[i].c : i \in 1..Len(r.steps)}
      top == CHOOSE k \in cs : \A j \in cs : j <= k
      v == History(NewServer(r.auth, r.au, top + 1), r.steps, 1)
  IN IF v.why = "ok" THEN "ok" ELSE "step " \o ToString(v.i) \o ": " \o v.why
Init == n \in 1..Len(Log) /\ verdict = "?"
Decide == /\ verdict = "?"
          /\ verdict' = Judge(Log[n])
          /\ PrintT(<<"@@", Log[n].id, verdict'>>)
          /\ UNCHANGED n
Spec == Init /\ [][Decide]_vars
=============================================================================
