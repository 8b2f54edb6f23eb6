---------------------------- MODULE TimeoutTrace ----------------------------
(* recorded histories of the real readers and server are behaviours of Timeout *)
EXTENDS Timeout, TLC, Json, IOUtils
VARIABLES n, i
Cases == ndJsonDeserialize(IOEnv.TRACE)
Loud == "LOUD" \in DOMAIN IOEnv
Log(k) == Cases[k].log
Init == n \in 1..Len(Cases) /\ i = 1 /\ TmInit(Cases[n].case)
Next == /\ i <= Len(Log(n)) /\ i' = i + 1 /\ UNCHANGED n
        /\ LET e == Log(n)[i] IN
           \/ e.e = "open" /\ Open
           \/ e.e = "send" /\ Send(e.c, e.n)
           \/ e.e = "fin" /\ Fin(e.c)
           \/ e.e = "adv" /\ Advance(e.n)
           \/ e.e = "run" /\ Run
           \/ e.e = "reply" /\ Reply(e.c)
           \/ e.e = "done" /\ Done(e.c, e.ok, e.err, e.n)
           \/ e.e = "rest" /\ Rest(e.g, e.x)
        /\ Loud => PrintT(<<"@@@", Cases[n].id, i>>)
        /\ i = Len(Log(n)) => PrintT(<<"@@", Cases[n].id, "ok">>)
Spec == Init /\ [][Next]_<<n, i, tmvars>>
Safe == TmTypeOK
=============================================================================
