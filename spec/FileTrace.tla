------------------------------ MODULE FileTrace ----------------------------
(* Histories recorded from real servers with file services, step by step,   *)
(* against FileService.tla.                                                  *)
EXTENDS FileService, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, verdict
vars == <<n, verdict>>
Judge(r) == LET v == FHistory(FInit(r.steps[1].fs), r.steps, 1)
            IN IF v.why = "ok" THEN "ok" ELSE "step " \o ToString(v.i) \o ": " \o v.why
Init == n \in 1..Len(Log) /\ verdict = "?"
Decide == /\ verdict = "?"
          /\ verdict' = Judge(Log[n])
          /\ PrintT(<<"@@", Log[n].id, verdict'>>)
          /\ UNCHANGED n
Spec == Init /\ [][Decide]_vars
=============================================================================
