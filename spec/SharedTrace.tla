----------------------------- MODULE SharedTrace ----------------------------
(* recorded histories of the real server are behaviours of SharedServer      *)
EXTENDS SharedServer, TLC, Json, IOUtils
VARIABLES n, i
Cases == ndJsonDeserialize(IOEnv.TRACE)
Loud == "LOUD" \in DOMAIN IOEnv
Log(k) == Cases[k].log
Init == n \in 1..Len(Cases) /\ i = 1 /\ SInit(Cases[n].auth)
Consume(e) ==
  \/ e.e = "call" /\ Invoke(e)
  \/ e.e = "ret" /\ Return(e)
  \/ e.e = "h" /\ Handled(e)
  \/ e.e = "quiet" /\ Rest /\ UNCHANGED svars
\* an effect is only tried where the next event is not possible without it: effects and events commute
Next == \/ /\ i <= Len(Log(n)) /\ Consume(Log(n)[i]) /\ i' = i + 1 /\ UNCHANGED n
           /\ Loud => PrintT(<<"@@@", Cases[n].id, i>>)
           /\ i = Len(Log(n)) => PrintT(<<"@@", Cases[n].id, "ok">>)
        \/ i <= Len(Log(n)) /\ ~ENABLED Consume(Log(n)[i]) /\ Effect /\ UNCHANGED <<n, i>>
Spec == Init /\ [][Next]_<<n, i, svars>>
=============================================================================
