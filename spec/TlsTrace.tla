------------------------------ MODULE TlsTrace ------------------------------
(* Histories recorded from the real server behind TLS, step by step,         *)
(* against TlsServer.tla.                                                    *)
EXTENDS TlsServer, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, verdict
vars == <<n, verdict>>
Judge(r) ==
  LET cs == {r.steps[i].c : i \in 1..Len(r.steps)}
      top == CHOOSE k \in cs : \A j \in cs : j <= k
      v == TlsHistory(NewTls(r.auth, r.au, top + 1, r.key = "good"), r.steps, 1)
  IN IF r.thrown # (r.key # "good") THEN "a key file that cannot be used must be reported, and no other"
     ELSE IF v.why = "ok" THEN "ok" ELSE "step " \o ToString(v.i) \o ": " \o v.why
Init == n \in 1..Len(Log) /\ verdict = "?"
Decide == /\ verdict = "?"
          /\ verdict' = Judge(Log[n])
          /\ PrintT(<<"@@", Log[n].id, verdict'>>)
          /\ UNCHANGED n
Spec == Init /\ [][Decide]_vars
=============================================================================
