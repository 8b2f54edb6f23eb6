------------------------------- MODULE Writer ------------------------------
(***************************************************************************)
(* How messages go over the wire: the headers a message is sent with, and  *)
(* a writer that collects data and sends it as one message or in chunks.   *)
(***************************************************************************)
EXTENDS HttpParser
M == INSTANCE Message
RECURSIVE Build(_,_,_), Parse(_,_,_,_), ScriptRun(_,_,_), CookieHeaders(_,_,_)
Build(m, ops, i) == IF i > Len(ops) THEN [ok |-> TRUE, m |-> m] ELSE LET e == M!Op(m, ops[i]) IN IF ~e.ok THEN [ok |-> FALSE, m |-> m] ELSE Build(e.m, ops, i+1)
\* feed runs until the message ends
Parse(p, w, i, left) ==
  IF p.v # "more" \/ i > Len(w) THEN p
  ELSE LET r == Absorb(p, w[i][1], left)  rest == left - r.u
       IN IF rest > 0 THEN Parse(r.p, w, i, rest) ELSE Parse(r.p, w, i+1, IF i < Len(w) THEN w[i+1][2] ELSE 0)
CookieHeaders(m, h, i) == IF i > Len(m.c) THEN h
  ELSE CookieHeaders(m, IF m.isreq THEN M!DAdd(h, M!NCookie, m.c[i][1] \o <<EQ>> \o m.c[i][2])
                        ELSE M!DAdd(h, M!NSetCookie, M!SetCookie(m.c[i][1], m.c[i][2], <<SLASH>>, << >>)), i+1)
\* the headers a message goes out with (a message that may have no content
\* announces the length it would have had, as the answer to HEAD does)
Sent(m, ka, chunks, sup, len) ==
  LET h1 == M!DSet(m.h, M!NConnection, IF ka THEN M!VKeepAlive ELSE M!VClose)
      h2 == IF chunks THEN M!DDel(h1, M!NContentLength) ELSE h1
      h3 == IF chunks /\ sup THEN M!DSet(h2, M!NTransferEncoding, M!VChunked) ELSE M!DDel(h2, M!NTransferEncoding)
      h4 == IF chunks \/ m.nocl THEN h3 ELSE M!DSet(h3, M!NContentLength, M!DigitsOf(len))
  IN CookieHeaders(m, h4, 1)
\* a writer's calls: data waiting, data sent, whether in chunks, whether the client takes chunks
ScriptRun(s, i, st) ==
  IF i > Len(s) THEN st
  ELSE LET c == s[i] IN ScriptRun(s, i+1,
    CASE c.k \in {"t", "b", "n", "m", "i"} -> [st EXCEPT !.pend = @ \o c.d]
      [] c.k = "c" -> [st EXCEPT !.pend = << >>]
      [] c.k = "L" -> st
      [] c.k \in {"S", "s"} -> [st EXCEPT !.sent = @ \o st.pend, !.fin = @ + (IF c.k = "s" THEN 1 ELSE 0)]
      [] c.k \in {"C", "F", "f"} -> [st EXCEPT !.sent = @ \o st.pend, !.chunks = TRUE, !.fin = @ + (IF c.k = "f" THEN 1 ELSE 0)])
Expected(r, m) ==
  IF r.mode \in {"qw", "rw"} THEN
    LET st == ScriptRun(r.script, 1, [pend |-> m.body, sent |-> << >>, chunks |-> FALSE, fin |-> 0])
        sup == IF r.L # 2 THEN r.L = 1 ELSE IF r.mode = "qw" THEN TRUE ELSE m.sup
        ka == r.ka /\ ~(st.chunks /\ ~sup)
    IN [body |-> IF M!NoBody(m) THEN << >> ELSE st.sent, h |-> Sent(m, ka, st.chunks, sup, Len(st.sent)), open |-> (st.chunks /\ ~sup) \/ m.nocl, kaend |-> ka, fin |-> st.fin]
  ELSE [body |-> IF r.mode \in {"head", "sendhead"} THEN << >> ELSE m.body, h |-> Sent(m, r.ka, FALSE, FALSE, Len(m.body)), open |-> m.nocl, kaend |-> r.ka, fin |-> 0]

(* --------------------------- the bytes themselves ---------------------- *)
RECURSIVE HeaderText(_,_), Hex(_)
HeaderText(h, i) == IF i > Len(h) THEN <<CR, LF>> ELSE h[i][1] \o <<COLON, SP>> \o h[i][2] \o <<CR, LF>> \o HeaderText(h, i+1)
HexDigit(k) == IF k < 10 THEN 48 + k ELSE 87 + k
Hex(k) == IF k < 16 THEN <<HexDigit(k)>> ELSE Append(Hex(k \div 16), HexDigit(k % 16))
HeadText(m, h) == M!FirstLine(m) \o <<CR, LF>> \o HeaderText(h, 1)
Chunk(d) == IF d = << >> THEN << >> ELSE Hex(Len(d)) \o <<CR, LF>> \o d \o <<CR, LF>>
LastChunk == <<48, CR, LF, CR, LF>>
=============================================================================
