------------------------------- MODULE Forms -------------------------------
(***************************************************************************)
(* Name/value data carried by HTTP messages: query strings and URL-encoded *)
(* forms, cookies, multipart forms, URIs.  The readers are byte-driven     *)
(* machines: a state record and a step per byte.                           *)
(***************************************************************************)
EXTENDS Codec

NAME_MAX == 1024            \* query and cookie names
VALUE_MAX == 1048576        \* query and cookie values

Skip(b) == b \in {CR, LF, HT}

(* --------------------- query strings and forms ------------------------- *)
Url0 == [mode |-> "name", n |-> << >>, v |-> << >>, out |-> << >>, ok |-> TRUE]
UrlEmit(q) == IF q.n = << >> THEN q ELSE [q EXCEPT !.out = Append(@, <<UrlDecode(q.n), UrlDecode(q.v)>>)]
UrlStep(q, b) ==
  IF ~q.ok THEN q
  ELSE IF q.mode = "name" THEN
    IF b = EQ THEN [q EXCEPT !.mode = "value"]
    ELSE IF b = AMP THEN [UrlEmit(q) EXCEPT !.n = << >>]
    ELSE IF Skip(b) THEN q
    ELSE IF IsControl(b) \/ Len(q.n) >= NAME_MAX THEN [q EXCEPT !.ok = FALSE]
    ELSE [q EXCEPT !.n = Append(@, b)]
  ELSE
    IF b = AMP THEN [UrlEmit(q) EXCEPT !.n = << >>, !.v = << >>, !.mode = "name"]
    ELSE IF b = COMMA THEN [UrlEmit(q) EXCEPT !.v = << >>]
    ELSE IF Skip(b) THEN q
    ELSE IF IsControl(b) \/ Len(q.v) >= VALUE_MAX THEN [q EXCEPT !.ok = FALSE]
    ELSE [q EXCEPT !.v = Append(@, b)]
RECURSIVE UrlRun(_,_,_)
UrlRun(s, i, q) == IF i > Len(s) THEN q ELSE UrlRun(s, i+1, UrlStep(q, s[i]))
\* [ok, out]: verdict and pairs in order
UrlForm(s) == LET q == UrlRun(s, 1, Url0) IN [ok |-> q.ok, out |-> IF q.ok THEN UrlEmit(q).out ELSE << >>]

\* the piece written for one pair, and the text for a sequence of pairs
QueryPiece(p) == UrlEncode(p[1]) \o <<EQ>> \o UrlEncode(p[2])
RECURSIVE QueryText(_,_)
QueryText(d, i) == IF i > Len(d) THEN << >> ELSE (IF i > 1 THEN <<AMP>> ELSE << >>) \o QueryPiece(d[i]) \o QueryText(d, i+1)
\* split a text at a byte
RECURSIVE SplitAt(_,_,_,_)
SplitAt(s, b, i, cur) == IF i > Len(s) THEN <<cur>> ELSE IF s[i] = b THEN <<cur>> \o SplitAt(s, b, i+1, << >>) ELSE SplitAt(s, b, i+1, Append(cur, s[i]))
\* a text is a possible writing of a dictionary: its pairs, in any order
WritesQuery(t, d) == IF d = << >> THEN t = << >> ELSE SameBag(SplitAt(t, AMP, 1, << >>), [i \in 1..Len(d) |-> QueryPiece(d[i])])

(* ------------------------------ cookies -------------------------------- *)
Attributes == { <<99,111,109,109,101,110,116>>, <<100,111,109,97,105,110>>, <<109,97,120,45,97,103,101>>, <<112,97,116,104>>,
                <<115,101,99,117,114,101>>, <<118,101,114,115,105,111,110>>, <<101,120,112,105,114,101,115>>, <<104,116,116,112,111,110,108,121>> }
IsAttribute(n, set) == n = << >> \/ n[1] = DOLLAR \/ (set /\ SLower(n) \in Attributes)
Ck0(set) == [set |-> set, mode |-> "name", n |-> << >>, v |-> << >>, quote |-> 0, out |-> << >>, ok |-> TRUE]
CkEmit(c) == LET d == [c EXCEPT !.n = << >>, !.v = << >>]
             IN IF IsAttribute(c.n, c.set) THEN d ELSE [d EXCEPT !.out = Append(@, <<c.n, c.v>>)]
CkSep(b) == b \in {SEMI, COMMA}
CkStep(c, b) ==
  IF ~c.ok THEN c
  ELSE IF c.mode = "name" THEN
    IF b = EQ THEN [c EXCEPT !.mode = "value", !.quote = 0]
    ELSE IF CkSep(b) THEN CkEmit(c)
    ELSE IF b = SP THEN c
    ELSE IF IsControl(b) \/ Len(c.n) >= NAME_MAX THEN [c EXCEPT !.ok = FALSE]
    ELSE [c EXCEPT !.n = Append(@, b)]
  ELSE IF c.mode = "value" THEN
    IF c.quote = 0 THEN
      IF CkSep(b) THEN [CkEmit(c) EXCEPT !.mode = "name"]
      ELSE IF b \in {SQUOTE, DQUOTE} /\ c.v = << >> THEN [c EXCEPT !.quote = b]
      ELSE IF b = SP /\ c.v = << >> THEN c
      ELSE IF IsControl(b) \/ Len(c.v) >= VALUE_MAX THEN [c EXCEPT !.ok = FALSE]
      ELSE [c EXCEPT !.v = Append(@, b)]
    ELSE
      IF b = c.quote THEN [CkEmit(c) EXCEPT !.mode = "ignore"]
      ELSE IF Len(c.v) >= VALUE_MAX THEN [c EXCEPT !.ok = FALSE]
      ELSE [c EXCEPT !.v = Append(@, b)]
  ELSE IF CkSep(b) THEN [c EXCEPT !.mode = "name"] ELSE c
RECURSIVE CkRun(_,_,_)
CkRun(s, i, c) == IF i > Len(s) THEN c ELSE CkRun(s, i+1, CkStep(c, s[i]))
Cookies(s, set) == LET c == CkRun(s, 1, Ck0(set)) IN [ok |-> c.ok, out |-> IF c.ok THEN CkEmit(c).out ELSE << >>]

\* Set-Cookie text; age is << >> or the decimal digits
TVersion == <<34,59,32,86,101,114,115,105,111,110,61,49>>         \* "; Version=1 after the closing quote
TPath    == <<59,32,80,97,116,104,61>>
TMaxAge  == <<59,32,77,97,120,45,65,103,101,61>>
SetCookie(n, v, path, age) ==
  n \o <<EQ, DQUOTE>> \o v \o TVersion \o (IF path = << >> THEN << >> ELSE TPath \o path) \o (IF age = << >> THEN << >> ELSE TMaxAge \o age)

(* ------------------------- multipart forms ----------------------------- *)
TBoundary    == <<98,111,117,110,100,97,114,121,61>>
TName        == <<110,97,109,101,61,34>>
TText        == <<116,101,120,116,47>>
CONTENT_TYPE == <<99,111,110,116,101,110,116,45,116,121,112,101>>
CONTENT_DISPOSITION == <<99,111,110,116,101,110,116,45,100,105,115,112,111,115,105,116,105,111,110>>
TData == <<100,97,116,97,58>>   TBase64 == <<59,32,98,97,115,101,54,52,44,32>>

\* least position >= i of a byte in the set, or Len+1
RECURSIVE NextIn(_,_,_)
NextIn(s, S, i) == IF i > Len(s) \/ s[i] \in S THEN i ELSE NextIn(s, S, i+1)
\* the delimiter a content type announces, or << >>
Delimiter(ct) ==
  LET p == FindFrom(TBoundary, ct, 1) IN
  IF p = 0 THEN << >>
  ELSE LET a == p + 9
           quoted == a <= Len(ct) /\ ct[a] = DQUOTE
           from == IF quoted THEN a + 1 ELSE a
           to == IF quoted THEN NextIn(ct, {DQUOTE}, from) ELSE NextIn(ct, {SEMI, SP, HT}, from)
       IN IF to = from THEN << >> ELSE <<DASH, DASH>> \o SubSeq(ct, from, to - 1)

\* position of the name in a content disposition: a parameter of its own, not the end of another one
NamePos(v) == LET S == {i \in 1..Len(v) : OccursAt(TName, v, i) /\ (i = 1 \/ v[i-1] \in {SP, SEMI, HT})}
              IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
FieldName(v) == LET p == NamePos(v) IN IF p = 0 THEN << >> ELSE SubSeq(v, p + 6, NextIn(v, {DQUOTE}, p + 6) - 1)
DataString(type, bytes) == TData \o type \o TBase64 \o B64Encode(bytes)

Mp0 == [mode |-> "cr", hn |-> << >>, hv |-> << >>, fn |-> << >>, ct |-> << >>, b64 |-> FALSE, out |-> << >>]
MpHeader(m) == \* a complete header
  LET d == [m EXCEPT !.hn = << >>, !.hv = << >>] IN
  IF SLower(m.hn) = CONTENT_TYPE THEN [d EXCEPT !.ct = m.hv, !.b64 = SLower(SubSeq(m.hv, 1, IF Len(m.hv) < 5 THEN Len(m.hv) ELSE 5)) # TText]
  ELSE IF SLower(m.hn) = CONTENT_DISPOSITION THEN [d EXCEPT !.fn = @ \o FieldName(m.hv)]
  ELSE d
MpDone(m)   == [ok |-> m.out # << >>, out |-> m.out]
MpRefuse(m) == [ok |-> FALSE, out |-> m.out]
RECURSIVE MpRun(_,_,_,_), MpPart(_,_,_,_)
\* a delimiter begins at position i (or the body has ended)
MpPart(s, d, i, out) == IF i = 0 \/ i > Len(s) THEN MpDone([Mp0 EXCEPT !.out = out])
                        ELSE MpRun(s, d, i + Len(d), [Mp0 EXCEPT !.out = out])
MpRun(s, d, i, m) ==
  IF i > Len(s) THEN MpDone(m)
  ELSE LET b == s[i]  Go(mode) == MpRun(s, d, i+1, [m EXCEPT !.mode = mode]) IN
  CASE m.mode = "cr" -> IF b = CR THEN Go("lf") ELSE IF b = LF THEN Go("name")
                        ELSE IF b = DASH /\ i < Len(s) /\ s[i+1] = DASH THEN [ok |-> TRUE, out |-> m.out]
                        ELSE MpRefuse(m)
    [] m.mode = "lf" -> IF b = LF THEN Go("name") ELSE MpRefuse(m)
    [] m.mode = "name" ->
         IF b \in {CR, LF} THEN
           IF m.hn = << >> THEN (IF b = CR THEN Go("last") ELSE IF m.fn # << >> THEN Go("data") ELSE MpPart(s, d, FindFrom(d, s, i), m.out))
           ELSE MpRun(s, d, i+1, [m EXCEPT !.hn = << >>, !.mode = IF b = CR THEN "lf" ELSE "name"])
         ELSE IF b = COLON THEN Go("space")
         ELSE MpRun(s, d, i+1, [m EXCEPT !.hn = Append(@, b)])
    [] m.mode = "space" ->
         IF b \in {CR, LF} THEN MpRun(s, d, i+1, [m EXCEPT !.hn = << >>, !.mode = IF b = CR THEN "lf" ELSE "name"])
         ELSE IF b = SP THEN Go("space")
         ELSE MpRun(s, d, i+1, [m EXCEPT !.hv = Append(@, b), !.mode = "value"])
    [] m.mode = "value" ->
         IF b \in {CR, LF} THEN MpRun(s, d, i+1, [MpHeader(m) EXCEPT !.mode = IF b = CR THEN "lf" ELSE "name"])
         ELSE MpRun(s, d, i+1, [m EXCEPT !.hv = Append(@, b)])
    [] m.mode = "last" ->
         IF b # LF THEN MpRefuse(m)
         ELSE IF m.fn # << >> THEN Go("data") ELSE MpPart(s, d, FindFrom(d, s, i), m.out)
    [] m.mode = "data" ->
         LET f == FindFrom(d, s, i)
             next == IF f = 0 THEN Len(s) + 1 ELSE f
             end == IF next - 2 >= i /\ s[next-2] = CR /\ s[next-1] = LF THEN next - 3 ELSE next - 1
             v == SubSeq(s, i, end)
         IN MpPart(s, d, f, Append(m.out, <<m.fn, IF m.b64 THEN DataString(m.ct, v) ELSE v>>))
Multipart(ct, s) ==
  IF s = << >> THEN [ok |-> TRUE, out |-> << >>]
  ELSE LET d == Delimiter(ct) IN
       IF d = << >> THEN [ok |-> FALSE, out |-> << >>] ELSE MpPart(s, d, FindFrom(d, s, 1), << >>)

\* what a client sends for named parts: <<name, type or << >>, bytes>>
TDisp == <<67,111,110,116,101,110,116,45,68,105,115,112,111,115,105,116,105,111,110,58,32,102,111,114,109,45,100,97,116,97,59,32,110,97,109,101,61,34>>
TType == <<67,111,110,116,101,110,116,45,84,121,112,101,58,32>>
MpText(parts, d) ==
  LET One(p) == d \o <<CR, LF>> \o TDisp \o p[1] \o <<DQUOTE, CR, LF>> \o (IF p[2] = << >> THEN << >> ELSE TType \o p[2] \o <<CR, LF>>)
                \o <<CR, LF>> \o p[3] \o <<CR, LF>>
      F[i \in 0..Len(parts)] == IF i = 0 THEN << >> ELSE F[i-1] \o One(parts[i])
  IN F[Len(parts)] \o d \o <<DASH, DASH>>

(* -------------------------------- URIs --------------------------------- *)
TScheme == <<58,47,47>>
RECURSIVE Dec(_,_,_)
Dec(s, i, acc) == IF i > Len(s) THEN acc ELSE IF acc > 100000 THEN acc ELSE Dec(s, i+1, acc * 10 + (s[i] - 48))
Uri(u) ==
  LET pe == FindFrom(TScheme, u, 1)
      proto == IF pe = 0 THEN << >> ELSE SubSeq(u, 1, pe - 1)
      a == IF pe = 0 THEN 1 ELSE pe + 3
      sl == NextIn(u, {SLASH}, a)
      auth == SubSeq(u, a, sl - 1)
      co == NextIn(auth, {COLON}, 1)
      host == SubSeq(auth, 1, co - 1)
      ps == SubSeq(auth, co + 1, Len(auth))
      hasport == co <= Len(auth)
      portok == ~hasport \/ (ps # << >> /\ (\A i \in 1..Len(ps) : IsDigit(ps[i])) /\ Dec(ps, 1, 0) <= 65535)
      http == <<104,116,116,112>>  HTTPU == <<72,84,84,80>>
      port == IF hasport THEN Dec(ps, 1, 0) ELSE IF proto \in {http, HTTPU} THEN 80
              ELSE IF proto \in {Append(http, 115), Append(HTTPU, 83)} THEN 443 ELSE 0
      rest == SubSeq(u, sl, Len(u))
      qm == NextIn(rest, {QMARK}, 1)
  IN IF host = << >> \/ ~portok THEN [ok |-> FALSE, proto |-> << >>, host |-> << >>, port |-> 0, path |-> << >>, query |-> << >>]
     ELSE [ok |-> TRUE, proto |-> proto, host |-> host, port |-> port,
           path |-> IF rest = << >> THEN <<SLASH>> ELSE SubSeq(rest, 1, qm - 1),
           query |-> SubSeq(rest, qm + 1, Len(rest))]
=============================================================================
