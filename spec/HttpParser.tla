----------------------------- MODULE HttpParser -----------------------------
(***************************************************************************)
(* The incremental HTTP message parser as a byte-driven state machine.     *)
(*                                                                         *)
(* A parser state is a record p.  Absorb(p, b, k) feeds k copies of byte b *)
(* and says how many of them were used (at least one unless the message    *)
(* ended just before b).  Lose(p, n) is the loss of n bytes, Finish(p)     *)
(* the end of the stream.  The verdict p.v is "more", "ok" or "err".       *)
(*                                                                         *)
(* Because the machine only ever sees one byte at a time, independence     *)
(* from the division into reads (P01) is built in; the trace modules check *)
(* that the implementation agrees for every division.                      *)
(***************************************************************************)
EXTENDS Bytes

CONSTANTS STATUS_MESSAGE_MAX, METHOD_MAX, RESOURCE_MAX, QUERY_STRING_MAX,
          HEADER_NAME_MAX, HEADER_VALUE_MAX

(* error codes, numbered as in the public enumeration *)
E_METHOD_CHAR == 1    E_METHOD_SIZE == 2    E_URI_CHAR == 3       E_URI_SIZE == 4
E_QUERY_CHAR == 5     E_QUERY_SIZE == 6     E_VERSION_EMPTY == 7  E_VERSION_CHAR == 8
E_STATUS_EMPTY == 9   E_STATUS_CHAR == 10   E_HEADER_CHAR == 11   E_HEADER_NAME_SIZE == 12
E_HEADER_VALUE_SIZE == 13   E_CONTENT_LENGTH == 14   E_CHUNK_CHAR == 15
E_MISSING_CHUNK == 16       E_MISSING_HEADER == 17   E_MISSING_TOO_MUCH == 18

(* opts: [isreq, max, pay, honly, head] - request or response, maximum     *)
(* content length, payload handler installed, headers only, response to a  *)
(* HEAD request                                                            *)
NewParser(o) ==
  [ isreq |-> o.isreq, max |-> o.max, pay |-> o.pay, honly |-> o.honly, head |-> o.head,
    ms |-> "START", hs |-> IF o.isreq THEN "METHOD_START" ELSE "VER_H", cs |-> "SIZE_START",
    m |-> << >>, r |-> << >>, q |-> << >>, vj |-> 1, vn |-> 1, sc |-> 0, sm |-> << >>,
    hn |-> << >>, hv |-> << >>, al |-> 0, h |-> << >>,
    csz |-> 0, cr |-> 0, rem |-> 0, cread |-> 0, body |-> << >>, blen |-> 0, cl |-> 0, chk |-> FALSE,
    pl |-> << >>, mp |-> FALSE, dm |-> FALSE, n |-> 0,
    v |-> "more", ec |-> 0, val |-> FALSE, st |-> 0 ]

(* message status values: 0 none, 1 truncated, 2 partial, 3 ok *)
StatusOf(p, ok) == IF p.mp THEN (IF p.dm THEN 2 ELSE 1) ELSE (IF ok THEN 3 ELSE 1)

Err(p, e) == [p EXCEPT !.v = "err", !.ec = e, !.val = FALSE, !.st = StatusOf(p, FALSE)]
Use1(p)   == [p EXCEPT !.n = @ + 1]
UseN(p,k) == [p EXCEPT !.n = @ + k]
Min2(a,b) == IF a < b THEN a ELSE b

(* ---------------------------- headers as a dictionary ------------------ *)
CONTENT_LENGTH    == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
TRANSFER_ENCODING == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
CHUNKED           == <<99,104,117,110,107,101,100>>
\* a run string equals a plain (lower case) name, ignoring case
NameIs(rn, plain) == RLower(rn) = RCompress(plain)
HasHeader(h, plain) == \E i \in 1..Len(h) : NameIs(h[i][1], plain)
GetHeader(h, plain) == h[CHOOSE i \in 1..Len(h) : NameIs(h[i][1], plain)][2]

RECURSIVE TrimL(_), TrimR(_)
IsBlank(b) == b \in {32, 9, 10, 11, 12, 13}
TrimL(s) == IF Len(s) > 0 /\ IsBlank(s[1]) THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF Len(s) > 0 /\ IsBlank(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s)-1)) ELSE s
Trim(s) == TrimR(TrimL(s))

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN StripZeros(Tail(s)) ELSE s
SIZE_MAX == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
RECURSIVE LexLeq(_,_,_)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLeq(a, b, i+1)
ValidLength(s) == /\ Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
                  /\ LET z == StripZeros(s) IN
                       Len(z) < 20 \/ (Len(z) = 20 /\ LexLeq(z, SIZE_MAX, 1))
\* numbers beyond TLC's range behave like one larger than any input
Saturate == 1000000000
RECURSIVE Num(_,_,_)
Num(s, i, acc) == IF i > Len(s) THEN acc
                  ELSE IF acc >= Saturate \div 10 THEN Num(s, i+1, Saturate)
                  ELSE Num(s, i+1, acc * 10 + (s[i] - 48))

(* ------------------------------ end of message ------------------------- *)
Complete(p) == [p EXCEPT !.v = "ok", !.ms = "END", !.val = TRUE, !.st = StatusOf(p, TRUE)]
\* body collected so far becomes the content (chunked and unknown length)
Concat(p) == IF p.pay THEN p ELSE [p EXCEPT !.cl = p.blen]

Implied(p) == ~p.isreq /\ (p.head \/ (p.sc >= 100 /\ p.sc <= 199) \/ p.sc \in {204, 205, 304})

\* the end of the headers: how is the body framed?
EndHeaders(p0) ==
  LET isch == HasHeader(p0.h, TRANSFER_ENCODING)
              /\ FindFrom(CHUNKED, SLower(RExpand(GetHeader(p0.h, TRANSFER_ENCODING))), 1) # 0
      p == [p0 EXCEPT !.chk = isch, !.cl = 0, !.rem = 0, !.cread = 0]
  IN IF Implied(p) THEN Complete(p)
     ELSE IF isch THEN
       LET c == [p EXCEPT !.ms = "CHUNKS"] IN IF p.honly THEN Complete(c) ELSE c
     ELSE IF HasHeader(p.h, CONTENT_LENGTH) THEN
       LET s == Trim(RExpand(GetHeader(p.h, CONTENT_LENGTH))) IN
       IF ~ValidLength(s) THEN Err(p, E_CONTENT_LENGTH)
       ELSE LET n == Num(StripZeros(s), 1, 0) IN
         IF n = 0 THEN Complete(p)
         ELSE LET c == [p EXCEPT !.ms = "CONTENT", !.rem = n, !.cl = Min2(n, p.max)]
              IN IF p.honly THEN Complete(c) ELSE c
     ELSE IF p.isreq THEN Complete(p)
     ELSE LET c == [p EXCEPT !.ms = "NO_LENGTH"] IN IF p.honly THEN Complete(c) ELSE c

(* ------------------------------ header bytes --------------------------- *)
To(p, s) == [p EXCEPT !.hs = s]
Keep(p, f, b, k) == \* append k copies of b to the string being collected
  CASE f = "m"  -> [p EXCEPT !.m  = RPushN(@, b, k), !.al = @ + k, !.n = @ + k]
    [] f = "r"  -> [p EXCEPT !.r  = RPushN(@, b, k), !.al = @ + k, !.n = @ + k]
    [] f = "q"  -> [p EXCEPT !.q  = RPushN(@, b, k), !.al = @ + k, !.n = @ + k]
    [] f = "sm" -> [p EXCEPT !.sm = RPushN(@, b, k), !.al = @ + k, !.n = @ + k]
    [] f = "hn" -> [p EXCEPT !.hn = RPushN(@, b, k), !.al = @ + k, !.n = @ + k]
    [] f = "hv" -> [p EXCEPT !.hv = RPushN(@, b, k), !.al = @ + k, !.n = @ + k]
Limited(p, f, b, k, max, e) == \* the same, within a limit
  IF p.al >= max THEN [p |-> Err(p, e), u |-> 1]
  ELSE LET t == Min2(k, max - p.al) IN [p |-> Keep(p, f, b, t), u |-> t]

One(p) == [p |-> p, u |-> 1]
NewName(p, b) == Use1([p EXCEPT !.hn = << <<b, 1>> >>, !.al = 1, !.hs = "NAME"])
AddHeader(p) == [p EXCEPT !.h = Append(@, <<p.hn, p.hv>>)]
Zero(p) == [p EXCEPT !.vj = 0, !.vn = 0]
\* end of a line: CR or LF
Eol(p, b) == Use1(To(p, IF b = CR THEN "EXP_NL" ELSE "EXP_CR"))
\* the blank line was seen; byte b (used or not) finished the head
HeadDone(p) == IF p.ms = "FOOTERS" THEN Complete(p) ELSE EndHeaders(p)
Expect(p, b, c, next) == IF b = c THEN One(Use1(To(p, next))) ELSE One(Err(p, E_VERSION_CHAR))
\* a byte in first-of-name position
NameStart(p, b) == IF b \in {HT, SP} THEN One(Use1(To(p, "WS")))
                   ELSE IF ~IsToken(b) THEN One(Err(p, E_HEADER_CHAR))
                   ELSE One(NewName(p, b))
NUMBER_MAX == 65535

HeaderByte(p, b, k) ==
  CASE p.hs = "METHOD_START" ->
         IF b \in {SP, CR, LF} THEN [p |-> UseN(p, k), u |-> k]
         ELSE IF ~IsToken(b) THEN One(Err(p, E_METHOD_CHAR))
         ELSE One(Use1([p EXCEPT !.m = << <<b,1>> >>, !.al = 1, !.hs = "METHOD"]))
    [] p.hs = "METHOD" ->
         IF b = SP THEN One(Use1([p EXCEPT !.r = << >>, !.al = 0, !.hs = "URI"]))
         ELSE IF ~IsToken(b) THEN One(Err(p, E_METHOD_CHAR))
         ELSE Limited(p, "m", b, k, METHOD_MAX, E_METHOD_SIZE)
    [] p.hs = "URI" ->
         IF b = SP THEN One(Use1(To(p, "VER_H")))
         ELSE IF b = QMARK THEN One(Use1([p EXCEPT !.q = << >>, !.al = 0, !.hs = "QUERY"]))
         ELSE IF b \in {CR, LF} THEN One(Eol(Zero(p), b))
         ELSE IF IsControl(b) THEN One(Err(p, E_URI_CHAR))
         ELSE Limited(p, "r", b, k, RESOURCE_MAX, E_URI_SIZE)
    [] p.hs = "QUERY" ->
         IF b = SP THEN One(Use1(To(p, "VER_H")))
         ELSE IF b \in {CR, LF} THEN One(Eol(Zero(p), b))
         ELSE IF IsControl(b) THEN One(Err(p, E_QUERY_CHAR))
         ELSE Limited(p, "q", b, k, QUERY_STRING_MAX, E_QUERY_SIZE)
    [] p.hs = "VER_H" ->
         IF b \in {CR, LF} THEN (IF p.isreq THEN One(Eol(Zero(p), b)) ELSE One(Err(p, E_VERSION_EMPTY)))
         ELSE Expect(p, b, 72, "VER_T1")
    [] p.hs = "VER_T1" -> Expect(p, b, 84, "VER_T2")
    [] p.hs = "VER_T2" -> Expect(p, b, 84, "VER_P")
    [] p.hs = "VER_P"  -> Expect(p, b, 80, "VER_SL")
    [] p.hs = "VER_SL" -> Expect(p, b, SLASH, "MAJ0")
    [] p.hs = "MAJ0" -> IF IsDigit(b) THEN One(Use1([p EXCEPT !.vj = b - 48, !.hs = "MAJ"]))
                        ELSE One(Err(p, E_VERSION_CHAR))
    [] p.hs = "MAJ"  -> IF b = DOT THEN One(Use1(To(p, "MIN0")))
                        ELSE IF IsDigit(b) /\ p.vj * 10 + (b - 48) <= NUMBER_MAX
                             THEN One(Use1([p EXCEPT !.vj = @ * 10 + (b - 48)]))
                        ELSE One(Err(p, E_VERSION_CHAR))
    [] p.hs = "MIN0" -> IF IsDigit(b) THEN One(Use1([p EXCEPT !.vn = b - 48, !.hs = "MIN"]))
                        ELSE One(Err(p, E_VERSION_CHAR))
    [] p.hs = "MIN"  -> IF b = SP THEN One(Use1(IF p.isreq THEN p ELSE To(p, "SC0")))
                        ELSE IF b \in {CR, LF} THEN (IF p.isreq THEN One(Eol(p, b)) ELSE One(Err(p, E_STATUS_EMPTY)))
                        ELSE IF IsDigit(b) /\ p.vn * 10 + (b - 48) <= NUMBER_MAX
                             THEN One(Use1([p EXCEPT !.vn = @ * 10 + (b - 48)]))
                        ELSE One(Err(p, E_VERSION_CHAR))
    [] p.hs = "SC0"  -> IF IsDigit(b) THEN One(Use1([p EXCEPT !.sc = b - 48, !.hs = "SC"]))
                        ELSE One(Err(p, E_STATUS_CHAR))
    [] p.hs = "SC"   -> IF b = SP THEN One(Use1([p EXCEPT !.sm = << >>, !.al = 0, !.hs = "SM"]))
                        ELSE IF IsDigit(b) /\ p.sc * 10 + (b - 48) <= NUMBER_MAX
                             THEN One(Use1([p EXCEPT !.sc = @ * 10 + (b - 48)]))
                        ELSE IF b \in {CR, LF} THEN One(Eol([p EXCEPT !.sm = << >>], b))
                        ELSE One(Err(p, E_STATUS_CHAR))
    [] p.hs = "SM"   -> IF b \in {CR, LF} THEN One(Eol(p, b))
                        ELSE IF IsControl(b) THEN One(Err(p, E_STATUS_CHAR))
                        ELSE Limited(p, "sm", b, k, STATUS_MESSAGE_MAX, E_STATUS_CHAR)
    [] p.hs = "EXP_NL" -> \* after a CR
         IF b = LF THEN (IF p.isreq /\ p.vj = 0 THEN One(HeadDone(Use1(p)))   \* simple request
                         ELSE One(Use1(To(p, "HSTART"))))
         ELSE IF b = CR THEN One(HeadDone(Use1(p)))       \* lines end with CR only
         ELSE NameStart(p, b)
    [] p.hs = "EXP_CR" -> \* after a bare LF
         IF b = CR THEN One(Use1(To(p, "HSTART")))
         ELSE IF b = LF THEN One(HeadDone(Use1(p)))       \* lines end with LF only
         ELSE NameStart(p, b)
    [] p.hs = "WS" ->
         IF b \in {CR, LF} THEN One(Eol(p, b)) ELSE NameStart(p, b)
    [] p.hs = "HSTART" ->
         IF b = CR THEN One(Use1(To(p, "FIN_NL")))
         ELSE IF b = LF THEN One(Use1(To(p, "FIN_CR")))
         ELSE NameStart(p, b)
    [] p.hs = "NAME" ->
         IF b = COLON THEN One(Use1([p EXCEPT !.hv = << >>, !.al = 0, !.hs = "VSP"]))
         ELSE IF ~IsToken(b) THEN One(Err(p, E_HEADER_CHAR))
         ELSE Limited(p, "hn", b, k, HEADER_NAME_MAX, E_HEADER_NAME_SIZE)
    [] p.hs = "VSP" ->
         IF b = SP THEN One(Use1(To(p, "VALUE")))
         ELSE IF b \in {CR, LF} THEN One(Eol(AddHeader(p), b))
         ELSE IF ~IsToken(b) THEN One(Err(p, E_HEADER_CHAR))
         ELSE One(Keep(To(p, "VALUE"), "hv", b, 1))
    [] p.hs = "VALUE" ->
         IF b \in {CR, LF} THEN One(Eol(AddHeader(p), b))
         ELSE IF b # HT /\ IsControl(b) THEN One(Err(p, E_HEADER_CHAR))
         ELSE Limited(p, "hv", b, k, HEADER_VALUE_MAX, E_HEADER_VALUE_SIZE)
    \* CR (or LF) of the blank line seen; its partner is optional
    [] p.hs = "FIN_NL" -> IF b = LF THEN One(HeadDone(Use1(p))) ELSE [p |-> HeadDone(p), u |-> 0]
    [] p.hs = "FIN_CR" -> IF b = CR THEN One(HeadDone(Use1(p))) ELSE [p |-> HeadDone(p), u |-> 0]

(* ------------------------------- body bytes ---------------------------- *)
Deliver(p, b, k) == \* k body bytes arrive
  IF p.pay THEN [p EXCEPT !.pl = RPushN(@, b, k), !.n = @ + k]
  ELSE LET t == Min2(k, IF p.max > p.blen THEN p.max - p.blen ELSE 0)
       IN [p EXCEPT !.body = RPushN(@, b, t), !.blen = @ + t, !.n = @ + k]

ContentByte(p, b, k) ==
  LET t == Min2(k, p.rem)
      d == [Deliver(p, b, t) EXCEPT !.rem = @ - t, !.cread = @ + t]
  IN [p |-> IF d.rem = 0 THEN Complete(d) ELSE d, u |-> t]

CTo(p, s) == Use1([p EXCEPT !.cs = s])
HexCap == 100000000
ChunkByte(p, b, k) ==
  CASE p.cs = "SIZE_START" ->
         IF IsHex(b) THEN One(CTo([p EXCEPT !.csz = HexVal(b)], "SIZE"))
         ELSE IF b \in {SP, HT, CR, LF} THEN [p |-> UseN(p, k), u |-> k]
         ELSE One(Err(p, E_CHUNK_CHAR))
    [] p.cs = "SIZE" ->
         IF IsHex(b) THEN One(Use1([p EXCEPT !.csz = IF @ >= HexCap THEN Saturate ELSE @ * 16 + HexVal(b)]))
         ELSE IF b = CR THEN One(CTo(p, "LF_SIZE"))
         ELSE IF b \in {SP, HT} THEN One(CTo(p, "CR_SIZE"))
         ELSE IF b = SEMI THEN One(CTo(p, "IGNORE"))
         ELSE One(Err(p, E_CHUNK_CHAR))
    [] p.cs = "IGNORE" -> IF b = CR THEN One(CTo(p, "LF_SIZE")) ELSE [p |-> UseN(p, k), u |-> k]
    [] p.cs = "CR_SIZE" ->
         IF b = CR THEN One(CTo(p, "LF_SIZE"))
         ELSE IF b \in {SP, HT} THEN [p |-> UseN(p, k), u |-> k]
         ELSE One(Err(p, E_CHUNK_CHAR))
    [] p.cs = "LF_SIZE" ->
         IF b = LF THEN One(CTo([p EXCEPT !.cr = 0], IF p.csz = 0 THEN "LAST" ELSE "DATA"))
         ELSE One(Err(p, E_CHUNK_CHAR))
    [] p.cs = "DATA" ->
         LET t == Min2(k, p.csz - p.cr)
             d == [Deliver(p, b, t) EXCEPT !.cr = @ + t]
         IN [p |-> IF d.cr = d.csz THEN [d EXCEPT !.cs = "CR_DATA"] ELSE d, u |-> t]
    [] p.cs = "CR_DATA" -> IF b = CR THEN One(CTo(p, "LF_DATA")) ELSE One(Err(p, E_CHUNK_CHAR))
    [] p.cs = "LF_DATA" -> IF b = LF THEN One(CTo(p, "SIZE_START")) ELSE One(Err(p, E_CHUNK_CHAR))
    [] p.cs = "LAST" ->
         IF b = CR THEN One(CTo(p, "FINAL_LF"))
         ELSE [p |-> [Concat(p) EXCEPT !.ms = "FOOTERS", !.hs = "HSTART"], u |-> 0]
    [] p.cs = "FINAL_LF" -> IF b = LF THEN One(Complete(Use1(Concat(p)))) ELSE One(Err(p, E_CHUNK_CHAR))

(* --------------------------------- feeding ----------------------------- *)
Feed1(p, b, k) ==
  CASE p.ms \in {"HEADERS", "FOOTERS"} -> HeaderByte(p, b, k)
    [] p.ms = "CONTENT"   -> ContentByte(p, b, k)
    [] p.ms = "CHUNKS"    -> ChunkByte(p, b, k)
    [] p.ms = "NO_LENGTH" -> [p |-> Deliver(p, b, k), u |-> k]

\* k > 0 copies of b arrive
Absorb(p0, b, k) ==
  LET p1 == [p0 EXCEPT !.ms = IF @ = "START" THEN "HEADERS" ELSE @, !.dm = @ \/ p0.mp]
      r1 == Feed1(p1, b, k)
  IN IF r1.u > 0 \/ r1.p.v # "more" THEN r1
     ELSE LET r2 == Feed1(r1.p, b, k)          \* the byte belongs to the next section
          IN IF r2.u > 0 \/ r2.p.v # "more" THEN r2 ELSE Feed1(r2.p, b, k)

(* ------------------------------ lost bytes ----------------------------- *)
FILL == 88
Lose(p0, n) ==
  LET p == [p0 EXCEPT !.mp = TRUE] IN
  CASE p.ms \in {"START", "HEADERS", "FOOTERS"} -> Err(p, E_MISSING_HEADER)
    [] p.ms = "CHUNKS" ->
         IF p.cs = "DATA" /\ p.csz - p.cr >= n
         THEN LET d == [Deliver(p, FILL, n) EXCEPT !.cr = @ + n]
              IN IF d.cr = d.csz THEN [d EXCEPT !.cs = "CR_DATA"] ELSE d
         ELSE Err(p, E_MISSING_CHUNK)
    [] p.ms = "CONTENT" ->
         IF p.rem < n THEN Err(p, E_MISSING_TOO_MUCH)
         ELSE LET d == [Deliver(p, FILL, n) EXCEPT !.rem = @ - n, !.cread = @ + n]
              IN IF d.rem = 0 THEN Complete(d) ELSE d
    [] p.ms = "NO_LENGTH" -> Deliver(p, FILL, n)

(* ----------------------------- end of stream --------------------------- *)
\* is the end of the stream premature here?
Premature(p) == p.ms # "NO_LENGTH"
\* what is left of the message when it is finished here
Finish(p) ==
  CASE p.ms = "START" -> [p EXCEPT !.val = FALSE, !.cl = 0]
    [] p.ms \in {"HEADERS", "FOOTERS"} -> [p EXCEPT !.val = FALSE, !.cl = 0, !.st = StatusOf(p, FALSE)]
    [] p.ms = "CONTENT" -> [p EXCEPT !.val = FALSE, !.st = StatusOf(p, FALSE),
                                     !.cl = IF p.cread < p.max THEN p.cread ELSE @]
    [] p.ms = "CHUNKS" -> LET ok == p.cs = "SIZE_START" IN
                          [Concat(p) EXCEPT !.val = ok, !.st = StatusOf(p, ok)]
    [] p.ms = "NO_LENGTH" -> [Concat(p) EXCEPT !.val = TRUE, !.st = StatusOf(p, TRUE)]

(* ------------------------------- invariants ---------------------------- *)
\* facts about every reachable parser state, for any input
ParserInv(p) ==
  /\ p.v \in {"more", "ok", "err"}
  /\ (p.v = "err") = (p.ec # 0)
  /\ p.val => p.v = "ok"
  /\ p.blen <= p.max /\ RLen(p.body) = p.blen
  /\ RLen(p.m) <= METHOD_MAX /\ RLen(p.r) <= RESOURCE_MAX /\ RLen(p.q) <= QUERY_STRING_MAX
  /\ RLen(p.sm) <= STATUS_MESSAGE_MAX
  /\ \A i \in 1..Len(p.h) : RLen(p.h[i][1]) \in 1..HEADER_NAME_MAX /\ RLen(p.h[i][2]) <= HEADER_VALUE_MAX
  /\ \A i \in 1..Len(p.h) : /\ \A j \in 1..Len(p.h[i][1]) : IsToken(p.h[i][1][j][1])
                            /\ \A j \in 1..Len(p.h[i][2]) : p.h[i][2][j][1] \notin {CR, LF, 0}
  /\ p.cs = "DATA" => p.cr < p.csz
=============================================================================
