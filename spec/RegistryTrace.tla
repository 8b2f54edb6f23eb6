--------------------------- MODULE RegistryTrace ---------------------------
EXTENDS Registry, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, verdict
vars == <<n, verdict>>
NotLib(e) == ~(Len(e[2]) > 3 /\ SubSeq(e[2], 1, 3) = "lib")
DeadIn(ev) == SelectSeq(ev, NotLib)
SetOf(q) == {q[i] : i \in 1..Len(q)}
Exactly(ev, want) == SetOf(DeadIn(ev)) = want /\ Len(DeadIn(ev)) = Cardinality(want)
RECURSIVE Run(_,_,_), Lin(_,_,_,_)
Run(rec, s, i) ==
  IF i > Len(rec.steps) THEN IF ~Exactly(rec.endev, Deaths(s)) THEN <<"destroyed at the end", i>> ELSE IF rec.live # 0 THEN <<"objects never destroyed", i>> ELSE <<"ok", i>>
  ELSE LET o == rec.steps[i]  e == Call(s, o) IN
       IF e.r # o.r THEN <<o.op \o ": result", i>> ELSE IF ~e.ok THEN <<o.op \o ": value", i>> ELSE IF ~Exactly(o.ev, e.dead) THEN <<o.op \o ": destroyed objects", i>> ELSE Run(rec, e.s, i+1)
\* an order of the concurrent calls, respecting "ended before the other began", that explains all results and the final contents
Lin(rec, ops, s, done) ==
  IF done = 1..Len(ops) THEN SetOf(DeadIn(rec.endev)) = Deaths(s)
  ELSE \E i \in (1..Len(ops)) \ done :
         /\ \A j \in (1..Len(ops)) \ done : j # i => ~(ops[j].t2 < ops[i].t1)
         /\ LET e == Call(s, ops[i]) IN e.r = ops[i].r /\ e.ok /\ Lin(rec, ops, e.s, done \cup {i})
\* every object is destroyed once in all
Once(rec) == LET d == DeadIn(rec.allev) \o DeadIn(rec.endev) IN rec.live = 0 /\ Len(d) = Cardinality({d[i][1] : i \in 1..Len(d)})
Verdict(rec) == IF rec.kind = "mgr" THEN Run(rec, << >>, 1)
                ELSE IF ~Once(rec) THEN <<"an object was destroyed twice or never", 0>>
                ELSE IF Lin(rec, rec.steps, << >>, {}) THEN <<"ok", 0>> ELSE <<"no order of the concurrent calls explains the results", 0>>
Init == n \in 1..Len(Log) /\ verdict = << >>
Decide == /\ verdict = << >>
          /\ verdict' = Verdict(Log[n])
          /\ PrintT(<<"@@", Log[n].id, verdict'[1], verdict'[2]>>)
          /\ UNCHANGED n
Spec == Init /\ [][Decide]_vars
=============================================================================
