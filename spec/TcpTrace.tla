------------------------------ MODULE TcpTrace ------------------------------
(* recorded histories of the real server are behaviours of TcpServer        *)
EXTENDS TcpServer, TLC, Json, IOUtils
VARIABLES n, i
Cases == ndJsonDeserialize(IOEnv.TRACE)
Loud == "LOUD" \in DOMAIN IOEnv
Log(k) == Cases[k].log
Init == n \in 1..Len(Cases) /\ i = 1 /\ TInit
Set(s) == {s[j] : j \in 1..Len(s)}
Consume(e) ==
  \/ e.e = "call" /\ Invoke(e.c, e.op, e.k, e.s)
  \/ e.e = "ret" /\ Return(e.c, e.r)
  \/ e.e = "bs" /\ BeforeStarting
  \/ e.e = "as" /\ AfterStopping
  \/ e.e = "h" /\ Handle(e.s, e.k, e.f = 1)
  \/ e.e = "kept" /\ Kept(e.s)
  \/ e.e = "drop" /\ Drop(e.s)
  \/ e.e = "rd" /\ Read(e.s)
  \/ e.e = "rx" /\ GotData(e.s, e.n)
  \/ e.e = "D" /\ Leave(e.k)
  \/ e.e = "w" /\ Write(e.k)
  \/ e.e = "quiet" /\ Quiet(Set(e.eof), Set(e.up)) /\ UNCHANGED tvars
\* an effect is only tried where the next event is not possible without it: effects and events commute
Next == \/ /\ i <= Len(Log(n)) /\ Consume(Log(n)[i]) /\ i' = i + 1 /\ UNCHANGED n
           /\ Loud => PrintT(<<"@@@", Cases[n].id, i>>)
           /\ i = Len(Log(n)) => PrintT(<<"@@", Cases[n].id, "ok">>)
        \/ i <= Len(Log(n)) /\ ~ENABLED Consume(Log(n)[i]) /\ Effect /\ UNCHANGED <<n, i>>
Spec == Init /\ [][Next]_<<n, i, tvars>>
Safe == NoneLeft /\ Ordered /\ OneStop /\ TTypeOK
=============================================================================
