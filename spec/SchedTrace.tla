---------------------------- MODULE SchedTrace ----------------------------
(* Recorded histories of the real schedulers are behaviours of Scheduler:    *)
(* every event is a step, and calls take effect at moments TLC looks for.    *)
(* A history is accepted if some behaviour reaches its end.                  *)
EXTENDS Scheduler, TLC, TLCExt, Json, IOUtils
VARIABLES n, i
Cases == ndJsonDeserialize(IOEnv.TRACE)
Loud == "LOUD" \in DOMAIN IOEnv
Log(k) == Cases[k].log
Init == /\ n \in 1..Len(Cases) /\ i = 1 /\ SInit(Cases[n].threads)
Consume(e) ==
  \/ e.e = "call" /\ Invoke(e.c, e.op, e.j, e.v)
  \/ e.e = "ret" /\ Return(e.c, e.r)
  \/ e.e = "ws" /\ WorkerStart(e.w)
  \/ e.e = "we" /\ WorkerEnd(e.w)
  \/ e.e = "js" /\ JobStart(e.j, e.w, IF Cases[n].kind = "O" THEN e.v ELSE 0)
  \/ e.e = "je" /\ JobEnd(e.j, e.w)
  \/ e.e = "quiet" /\ Quiet /\ UNCHANGED svars
Next == \/ /\ i <= Len(Log(n)) /\ Consume(Log(n)[i]) /\ i' = i + 1 /\ UNCHANGED n
           /\ Loud => PrintT(<<"@@@", Cases[n].id, i>>)
           /\ i = Len(Log(n)) => PrintT(<<"@@", Cases[n].id, "ok">>)
        \/ Effect /\ UNCHANGED <<n, i>>
Spec == Init /\ [][Next]_<<n, i, svars>>
Safe == STypeOK /\ NothingAfterStop
=============================================================================
