---------------------------- MODULE ProcessTrace ----------------------------
(* recorded histories of the real code are behaviours of Process *)
EXTENDS Process, TLC, Json, IOUtils, Sequences
VARIABLES n, i
Cases == ndJsonDeserialize(IOEnv.TRACE)
Loud == "LOUD" \in DOMAIN IOEnv
Log(k) == Cases[k].log
Init == n \in 1..Len(Cases) /\ i = 1 /\ PInit
Consume(e) == \/ e.e = "call" /\ Invoke(e.c, e.op)
              \/ e.e = "ret" /\ Return(e.c)
              \/ e.e = "quiet" /\ Quiet /\ UNCHANGED pvars
Next == \/ /\ i <= Len(Log(n)) /\ Consume(Log(n)[i]) /\ i' = i + 1 /\ UNCHANGED n
           /\ Loud => PrintT(<<"@@@", Cases[n].id, i>>)
           /\ i = Len(Log(n)) => PrintT(<<"@@", Cases[n].id, "ok">>)
        \/ Effect /\ UNCHANGED <<n, i>>
Spec == Init /\ [][Next]_<<n, i, pvars>>
=============================================================================
