----------------------------- MODULE WriterMC ------------------------------
(* A writer sends a message as one piece or in chunks, to clients that take  *)
(* chunks or do not; whatever it does, the parser reads the data back.       *)
EXTENDS Writer
CONSTANTS MaxWrites, MaxSends
Pieces == { <<120>>, <<CR, LF>>, <<48, CR, LF, CR, LF>>, [i \in 1..17 |-> 97] }
Presets == { << >>, << <<M!NContentLength, <<57>>>> >>, << <<M!NTransferEncoding, M!VChunked>> >>, << <<M!NConnection, M!VClose>> >> }
VARIABLES msg, sup, ka, pend, data, wire, mode, writes, sends
vars == <<msg, sup, ka, pend, data, wire, mode, writes, sends>>
Init == /\ \E r \in BOOLEAN, h \in Presets, c \in {<< >>, << <<<<107>>, <<118>>>> >>} :
             \E sc \in (IF r THEN {200} ELSE {200, 204}), me \in (IF r THEN {M!New(r).method} ELSE {M!New(r).method, M!THead}) :
             msg = [M!New(r) EXCEPT !.h = h, !.c = c, !.sc = sc, !.method = me, !.res = IF r THEN <<SLASH>> ELSE << >>]
        /\ sup \in (IF msg.isreq THEN {TRUE} ELSE BOOLEAN) /\ ka \in BOOLEAN
        /\ pend = << >> /\ data = << >> /\ wire = << >> /\ mode = "new" /\ writes = 0 /\ sends = 0
Write == /\ mode \in {"new", "chunks"} /\ writes < MaxWrites /\ \E d \in Pieces : pend' = pend \o d /\ data' = data \o d
         /\ writes' = writes + 1 /\ UNCHANGED <<msg, sup, ka, wire, mode, sends>>
Send == /\ mode = "new" /\ mode' = "done" /\ wire' = HeadText(msg, Sent(msg, ka, FALSE, sup, Len(pend))) \o (IF M!NoBody(msg) THEN << >> ELSE pend)
        /\ UNCHANGED <<msg, sup, ka, pend, data, writes, sends>>
ChunkOut(last) == /\ mode \in {"new", "chunks"} /\ sends < MaxSends /\ sends' = sends + 1
        /\ ka' = (ka /\ sup)
        /\ wire' = wire \o (IF mode = "new" THEN HeadText(msg, Sent(msg, ka /\ sup, TRUE, sup, 0)) ELSE << >>)
                         \o (IF M!NoBody(msg) THEN << >> ELSE IF sup THEN Chunk(pend) ELSE pend) \o (IF last /\ sup /\ ~M!NoBody(msg) THEN LastChunk ELSE << >>)
        /\ pend' = << >> /\ mode' = (IF last THEN "done" ELSE "chunks") /\ UNCHANGED <<msg, sup, data, writes>>
Next == Write \/ Send \/ ChunkOut(FALSE) \/ ChunkOut(TRUE)
Spec == Init /\ [][Next]_vars
O == [isreq |-> msg.isreq, max |-> 1000000, pay |-> FALSE, honly |-> FALSE, head |-> ~msg.isreq /\ msg.method = M!THead]
ReadBack == mode = "done" =>
  LET w == RCompress(wire)  p0 == Parse(NewParser(O), w, 1, w[1][2])  closing == p0.v # "ok"  p == IF closing THEN Finish(p0) ELSE p0 IN
  /\ p0.v # "err" /\ p0.n = Len(wire) /\ p.val
  /\ closing => p0.ms = "NO_LENGTH" /\ ~ka
  /\ RExpand(p.body) = (IF M!NoBody(msg) THEN << >> ELSE data)
  /\ Cardinality({i \in 1..Len(p.h) : NameIs(p.h[i][1], M!NContentLength) \/ NameIs(p.h[i][1], M!NTransferEncoding)}) \in (IF closing THEN {0} ELSE IF M!NoBody(msg) THEN {0, 1} ELSE {1})
  /\ Cardinality({i \in 1..Len(p.h) : NameIs(p.h[i][1], M!NConnection)}) = 1
=============================================================================
