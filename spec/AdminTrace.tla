----------------------------- MODULE AdminTrace -----------------------------
(* recorded histories of the real code are behaviours of Admin *)
EXTENDS Admin, TLC, Json, IOUtils
VARIABLES n, i
Cases == ndJsonDeserialize(IOEnv.TRACE)
Loud == "LOUD" \in DOMAIN IOEnv
Log(k) == Cases[k].log
Init == /\ n \in 1..Len(Cases) /\ i = 1
        /\ LET c == Cases[n].ids IN AInit(c[1], c[2], c[3], c[5], {c[4], c[6]})
Consume(e) == \/ e.e = "call" /\ Invoke(e.c, e.op, e.o, e.n)
              \/ e.e = "ret" /\ Return(e.c, e.r)
              \/ e.e = "quiet" /\ Quiet /\ e.now = <<ruid, euid, suid, egid>> /\ UNCHANGED avars
Next == \/ /\ i <= Len(Log(n)) /\ Consume(Log(n)[i]) /\ i' = i + 1 /\ UNCHANGED n
           /\ Loud => PrintT(<<"@@@", Cases[n].id, i>>)
           /\ i = Len(Log(n)) => PrintT(<<"@@", Cases[n].id, "ok">>)
        \/ Effect(Cases[n].passwd, Cases[n].group) /\ UNCHANGED <<n, i>>
Spec == Init /\ [][Next]_<<n, i, avars>>
=============================================================================
