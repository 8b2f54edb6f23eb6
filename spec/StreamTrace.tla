----------------------------- MODULE StreamTrace ----------------------------
(* recorded histories of the real stream are behaviours of TcpStream        *)
EXTENDS TcpStream, TLC, Json, IOUtils
VARIABLES n, i
Cases == ndJsonDeserialize(IOEnv.TRACE)
Loud == "LOUD" \in DOMAIN IOEnv
Log(k) == Cases[k].log
Init == n \in 1..Len(Cases) /\ i = 1 /\ TInit
Next == /\ i <= Len(Log(n)) /\ i' = i + 1 /\ UNCHANGED n
        /\ LET e == Log(n)[i] IN
           \/ e.e = "call" /\ Call(e.op, e.n)
           \/ e.e = "ret" /\ Return(e.b, e.r)
           \/ e.e = "ps" /\ PeerSends(e.n)
           \/ e.e = "pe" /\ PeerEnds
           \/ e.e = "px" /\ PeerCloses
           \/ e.e = "pr" /\ PeerReads(e.n, e.b, e.r)
           \/ e.e = "cn" /\ Cancel
           \/ e.e = "quiet" /\ Quiet(e.n, Cases[n].small) /\ UNCHANGED tvars
        /\ Loud => PrintT(<<"@@@", Cases[n].id, i>>)
        /\ i = Len(Log(n)) => PrintT(<<"@@", Cases[n].id, "ok">>)
Spec == Init /\ [][Next]_<<n, i, tvars>>
Safe == TTypeOK
=============================================================================
