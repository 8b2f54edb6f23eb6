---------------------------- MODULE MessageTrace ---------------------------
(* Recorded histories of calls on message objects (harness/h_msg.cpp): each  *)
(* step names a slot and a call; after some steps every slot was observed.   *)
EXTENDS Message, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, verdict
vars == <<n, verdict>>
ProbeOk(g, d) == g[2] = DHas(d, g[1]) /\ g[3] \in DGets(d, g[1])
SeenAs(o, m) ==
  IF ~SameBag(Lowered(o.h), m.h) THEN "headers"
  ELSE IF ~SameBag(Lowered(o.c), m.c) THEN "cookies"
  ELSE IF m.isreq /\ ~SameBag(Lowered(o.q), m.q) THEN "queries"
  ELSE IF o.fl # FirstLine(m) THEN "first line"
  ELSE IF o.ka \notin KeepAlives(m) THEN "keep alive"
  ELSE IF o.cl # m.cl THEN "content length"
  ELSE IF o.b # m.body THEN "content"
  ELSE IF o.chk # m.chk \/ o.sup # m.sup \/ o.val # m.val \/ o.imp # NoBody(m) THEN "flags"
  ELSE IF o.vj # m.vj \/ o.vn # m.vn THEN "version"
  ELSE IF m.isreq /\ (o.m # m.method \/ o.res # m.res \/ o.orig # m.orig \/ o.qs # m.qs) THEN "request line"
  ELSE IF ~m.isreq /\ (o.sc # m.sc \/ o.sm # m.sm) THEN "status line"
  ELSE IF \E i \in 1..Len(o.gh) : ~ProbeOk(o.gh[i], m.h) THEN "reading headers"
  ELSE IF \E i \in 1..Len(o.gc) : ~ProbeOk(o.gc[i], m.c) THEN "reading cookies"
  ELSE IF \E i \in 1..Len(o.gq) : ~ProbeOk(o.gq[i], m.q) THEN "reading queries"
  ELSE "ok"
RECURSIVE Slots(_,_,_), Run(_,_,_)
Slots(obs, ms, i) == IF i > Len(obs) THEN "ok" ELSE LET r == SeenAs(obs[i], ms[i]) IN IF r = "ok" THEN Slots(obs, ms, i+1) ELSE r
\* ms: the slots' states
Run(steps, ms, i) ==
  IF i > Len(steps) THEN <<"ok", i>>
  ELSE LET s == steps[i]
           e == IF s.op \in {"copy", "assign"} THEN [ok |-> ~s.x, m |-> ms[s.n]] ELSE Op(ms[s.s], s)
           ms2 == [ms EXCEPT ![s.s] = e.m]
           seen == IF e.ok THEN Slots(s.o, ms2, 1) ELSE "result of the call"
       IN IF seen # "ok" THEN <<seen, i>> ELSE Run(steps, ms2, i+1)
Init == n \in 1..Len(Log) /\ verdict = << >>
Decide == /\ verdict = << >>
          /\ LET r == Log[n] IN verdict' = Run(r.steps, [i \in 1..r.slots |-> New(r.isreq)], 1)
          /\ PrintT(<<"@@", Log[n].id, verdict'[1], verdict'[2]>>)
          /\ UNCHANGED n
Spec == Init /\ [][Decide]_vars
=============================================================================
