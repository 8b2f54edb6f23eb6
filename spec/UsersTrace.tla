----------------------------- MODULE UsersTrace ----------------------------
(* Recorded histories of user_manager calls, sequential and concurrent.     *)
EXTENDS Users, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, verdict
vars == <<n, verdict>>
\* what a successful lookup showed: the user's own name and kept digest
ShownOk(rec, s, o) ==
  LET f == CASE o.op \in {"get", "getp"} -> Find(s, o.n) [] o.op = "held" -> s.held [] OTHER -> 0 IN
  f # 0 /\ o.r = "t" => o.u = s.objs[f].name /\ SLower(o.w) \in (IF rec.ssl THEN Kept(rec.dig, TRUE, s.objs[f].cred) ELSE {SLower(x) : x \in Kept(rec.dig, FALSE, s.objs[f].cred)})
RECURSIVE Run(_,_,_), Lin(_,_,_,_)
Run(rec, s, i) ==
  IF i > Len(rec.steps) THEN <<"ok", i>>
  ELSE LET o == rec.steps[i]  e == Call(rec.dig, s, o) IN
       IF e.r # o.r THEN <<o.op, i>> ELSE IF ~ShownOk(rec, e.s, o) THEN <<"shown", i>> ELSE Run(rec, e.s, i+1)
\* concurrent calls: is there an order of the calls, respecting "ended before the other began", that explains every result?
Lin(rec, ops, s, done) ==
  IF done = 1..Len(ops) THEN TRUE
  ELSE \E i \in (1..Len(ops)) \ done :
         /\ \A j \in (1..Len(ops)) \ done : j # i => ~(ops[j].t2 < ops[i].t1)
         /\ LET e == Call(rec.dig, s, ops[i]) IN e.r = ops[i].r /\ Lin(rec, ops, e.s, done \cup {i})
Verdict(rec) == IF rec.conc THEN (IF Lin(rec, rec.steps, Start, {}) THEN <<"ok", 0>> ELSE <<"no order of the concurrent calls explains the results", 0>>)
                ELSE Run(rec, Start, 1)
Init == n \in 1..Len(Log) /\ verdict = << >>
Decide == /\ verdict = << >>
          /\ verdict' = Verdict(Log[n])
          /\ PrintT(<<"@@", Log[n].id, verdict'[1], verdict'[2]>>)
          /\ UNCHANGED n
Spec == Init /\ [][Decide]_vars
=============================================================================
