----------------------------- MODULE WriteTrace ----------------------------
(* A message built by calls (Message.tla) is written by the real code; the   *)
(* bytes, read by the specified parser (HttpParser.tla), must be the same    *)
(* message, framed exactly once; and the code's own reading must agree.      *)
EXTENDS Writer, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, verdict
vars == <<n, verdict>>
HeadOnly(r) == r.mode \in {"head", "sendhead"}
Judge(r) ==
  LET bm == Build(M!New(r.isreq), r.ops, 1)
      m == bm.m
      x == Expected(r, m)
      o == [isreq |-> r.isreq, max |-> 100000000, pay |-> FALSE, honly |-> HeadOnly(r), head |-> ~r.isreq /\ m.method = M!THead]
      p0 == Parse(NewParser(o), r.wire, 1, IF r.wire = << >> THEN 0 ELSE r.wire[1][2])
      ended == p0.v = "ok"
      p == IF ended THEN p0 ELSE Finish(p0)
      ph == [i \in 1..Len(p.h) |-> <<SLower(RExpand(p.h[i][1])), RExpand(p.h[i][2])>>]
      pbody == RExpand(p.body)
  IN IF ~bm.ok THEN "building the message failed"
     ELSE IF r.err THEN "writing failed"
     ELSE IF p0.v = "err" THEN "the bytes written are not a message"
     ELSE IF ~ended /\ (p0.ms # "NO_LENGTH" \/ ~x.open) THEN "the bytes written are not a complete message"
     ELSE IF p0.n # RLen(r.wire) THEN "there are bytes after the message"
     ELSE IF r.ret # RLen(r.wire) THEN "number of bytes written"
     ELSE IF r.isreq /\ (RExpand(p.m) # m.method \/ RExpand(p.r) # m.res \/ RExpand(p.q) # m.qs) THEN "request line"
     ELSE IF ~r.isreq /\ (p.sc # m.sc \/ RExpand(p.sm) # m.sm) THEN "status line"
     ELSE IF p.vj # m.vj \/ p.vn # m.vn THEN "version"
     ELSE IF ~SameBag(ph, x.h) THEN "headers"
     ELSE IF pbody # x.body THEN "body"
     ELSE IF r.kaend # x.kaend THEN "connection kept alive"
     ELSE IF r.fin # x.fin THEN "finished handler"
     ELSE IF ~r.back.ok THEN "reading it back failed"
     ELSE IF r.back.fl # M!FirstLine(m) THEN "start line read back"
     ELSE IF ~SameBag(M!Lowered(r.back.h), x.h) THEN "headers read back"
     ELSE IF ~HeadOnly(r) /\ r.back.b # x.body THEN "body read back"
     ELSE IF ~r.back.val THEN "validity read back"
     ELSE "ok"
Init == n \in 1..Len(Log) /\ verdict = "?"
Decide == /\ verdict = "?"
          /\ verdict' = Judge(Log[n])
          /\ PrintT(<<"@@", Log[n].id, verdict'>>)
          /\ UNCHANGED n
Spec == Init /\ [][Decide]_vars
=============================================================================
