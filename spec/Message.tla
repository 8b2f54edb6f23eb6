------------------------------ MODULE Message ------------------------------
(***************************************************************************)
(* HTTP request and response objects: three case-insensitive multimaps     *)
(* (headers, cookies, query parameters), start-line fields, content, and   *)
(* the state derived from them.  Op(m, o) is the effect of one call.       *)
(* Dictionaries are sequences of <<lower-case name, value>> read as bags.  *)
(* Numbers that may exceed TLC's range (content length) are digit strings. *)
(***************************************************************************)
EXTENDS Forms

NConnection == <<99,111,110,110,101,99,116,105,111,110>>
NContentLength == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
NTransferEncoding == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
NCookie == <<99,111,111,107,105,101>>
NSetCookie == <<115,101,116,45,99,111,111,107,105,101>>
VClose == <<99,108,111,115,101>>
VKeepAlive == <<75,101,101,112,45,65,108,105,118,101>>
VChunked == <<99,104,117,110,107,101,100>>
VUrlEncoded == <<97,112,112,108,105,99,97,116,105,111,110,47,120,45,119,119,119,45,102,111,114,109,45,117,114,108,101,110,99,111,100,101,100>>
TGet == <<71,69,84>>  TPost == <<80,79,83,84>>  THead == <<72,69,65,68>>  TOk == <<79,75>>  THttp == <<72,84,84,80,47>>

RECURSIVE DigitsOf(_)
DigitsOf(k) == IF k < 10 THEN <<48 + k>> ELSE Append(DigitsOf(k \div 10), 48 + (k % 10))

(* ----------------------------- dictionaries ---------------------------- *)
DAdd(d, nm, v)    == Append(d, <<SLower(nm), v>>)
DHas(d, nm)       == \E i \in 1..Len(d) : d[i][1] = SLower(nm)
DVals(d, nm)      == {d[i][2] : i \in {j \in 1..Len(d) : d[j][1] = SLower(nm)}}
DCount(d, nm)     == Cardinality({j \in 1..Len(d) : d[j][1] = SLower(nm)})
RECURSIVE Without(_,_,_)
Without(d, nm, i) == IF i > Len(d) THEN << >> ELSE (IF d[i][1] = nm THEN << >> ELSE <<d[i]>>) \o Without(d, nm, i+1)
DDel(d, nm)       == Without(d, SLower(nm), 1)
DSet(d, nm, v)    == Append(DDel(d, nm), <<SLower(nm), v>>)
\* reading: any of the values, or the empty string if there is none
DGets(d, nm)      == IF DHas(d, nm) THEN DVals(d, nm) ELSE {<< >>}
Lowered(ps)       == [i \in 1..Len(ps) |-> <<SLower(ps[i][1]), ps[i][2]>>]

\* a query string that writes these parameters (names may keep any spelling)
WritesQueryCI(t, d) == LET r == UrlForm(t) IN IF d = << >> THEN t = << >> ELSE r.ok /\ SameBag(Lowered(r.out), d)

(* ------------------------------ messages ------------------------------- *)
Zero0 == <<48>>
New(isreq) ==
  [ isreq |-> isreq, h |-> << >>, c |-> << >>, q |-> << >>, method |-> IF isreq THEN TGet ELSE << >>,
    res |-> << >>, orig |-> << >>, qs |-> << >>, vj |-> 1, vn |-> 1, sc |-> 200, sm |-> TOk,
    cl |-> Zero0, body |-> << >>, chk |-> FALSE, sup |-> FALSE, nocl |-> FALSE, val |-> FALSE ]
\* method: of the request, or (response) of the request being answered
Cleared(m) == [New(m.isreq) EXCEPT !.method = IF m.isreq THEN << >> ELSE m.method]

FirstLine(m) ==
  LET ver == THttp \o DigitsOf(m.vj) \o <<DOT>> \o DigitsOf(m.vn) IN
  IF m.isreq THEN m.method \o <<SP>> \o m.res \o (IF m.qs = << >> THEN << >> ELSE <<QMARK>> \o m.qs) \o <<SP>> \o ver
  ELSE ver \o <<SP>> \o DigitsOf(m.sc) \o <<SP>> \o m.sm
KeepAlives(m) == {SLower(v) # VClose /\ (m.vj > 1 \/ (m.vj = 1 /\ m.vn >= 1)) : v \in DGets(m.h, NConnection)}
NoBody(m) == ~m.isreq /\ (m.method = THead \/ (m.sc >= 100 /\ m.sc <= 199) \/ m.sc \in {204, 205, 304})

RECURSIVE TrimLeft(_), TrimRight(_), NoZeros(_), DigitsLeq(_,_,_)
Blank(b) == b \in {32, 9, 10, 11, 12, 13}
TrimLeft(s)  == IF Len(s) > 0 /\ Blank(s[1]) THEN TrimLeft(Tail(s)) ELSE s
TrimRight(s) == IF Len(s) > 0 /\ Blank(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s)-1)) ELSE s
NoZeros(s)   == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
Size64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
DigitsLeq(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE DigitsLeq(a, b, i+1)
\* the number a Content-Length value stands for, or << >> if it is unusable
LengthOf(v) == LET s == TrimRight(TrimLeft(v))  z == NoZeros(s) IN
  IF s = << >> \/ (\E i \in 1..Len(s) : ~IsDigit(s[i])) \/ Len(z) > 20 \/ (Len(z) = 20 /\ ~DigitsLeq(z, Size64, 1)) THEN << >> ELSE z
IsChunkedValue(v) == FindFrom(VChunked, SLower(v), 1) # 0
SetBody(m, b) == [m EXCEPT !.body = b, !.cl = DigitsOf(Len(b))]

\* The effect of a call.  o = [op, a, b, n]: two byte strings and a number; o.r is what the call
\* left behind where the outcome is not determined (order of query parameters, choice of a value),
\* o.x whether it failed.  Result: [ok, m] - is the recorded o.r/o.x possible, and the new state.
Det(m, o) == [ok |-> ~o.x, m |-> m]
Op(m, o) ==
  CASE o.op = "ah" -> Det([m EXCEPT !.h = DAdd(@, o.a, o.b)], o)
    [] o.op = "ch" -> Det([m EXCEPT !.h = DSet(@, o.a, o.b)], o)
    [] o.op = "dh" -> Det([m EXCEPT !.h = DDel(@, o.a)], o)
    [] o.op = "ac" -> Det([m EXCEPT !.c = DAdd(@, o.a, o.b)], o)
    [] o.op = "cc" -> Det([m EXCEPT !.c = DSet(@, o.a, o.b)], o)
    [] o.op = "dc" -> Det([m EXCEPT !.c = DDel(@, o.a)], o)
    [] o.op = "aq" -> Det([m EXCEPT !.q = DAdd(@, o.a, o.b)], o)
    [] o.op = "cq" -> Det([m EXCEPT !.q = DSet(@, o.a, o.b)], o)
    [] o.op = "dq" -> Det([m EXCEPT !.q = DDel(@, o.a)], o)
    [] o.op = "sm" -> Det([m EXCEPT !.method = o.a], o)
    [] o.op = "sr" -> Det([m EXCEPT !.res = o.a, !.orig = o.a], o)
    [] o.op = "cr" -> Det([m EXCEPT !.res = o.a], o)
    [] o.op = "sq" -> Det([m EXCEPT !.qs = o.a], o)
    [] o.op = "vj" -> Det([m EXCEPT !.vj = o.n], o)
    [] o.op = "vn" -> Det([m EXCEPT !.vn = o.n], o)
    [] o.op = "sc" -> Det([m EXCEPT !.sc = o.n], o)
    [] o.op = "ss" -> Det([m EXCEPT !.sm = o.a], o)
    [] o.op = "sb" -> Det(SetBody(m, o.a), o)                                   \* set_content(string)
    [] o.op = "sp" -> Det(IF o.a = << >> THEN m ELSE SetBody(m, o.a), o)        \* set_content(pointer, size)
    [] o.op = "cb" -> Det([SetBody(m, << >>) EXCEPT !.h = DDel(@, CONTENT_TYPE)], o)
    [] o.op = "ct" -> Det([m EXCEPT !.h = DSet(@, CONTENT_TYPE, o.a)], o)
    [] o.op = "cl" -> Det([m EXCEPT !.cl = DigitsOf(o.n)], o)                   \* set_content_length
    [] o.op = "sup" -> Det([m EXCEPT !.sup = (o.n = 1)], o)
    [] o.op = "nocl" -> Det([m EXCEPT !.nocl = TRUE], o)
    [] o.op = "val" -> Det([m EXCEPT !.val = (o.n = 1)], o)
    [] o.op = "clear" -> Det(Cleared(m), o)
    \* response: the request being answered (o.a its method, version o.n \div 10 . o.n % 10)
    [] o.op = "ri" -> Det(LET k == [m EXCEPT !.method = o.a] IN
                          IF o.n \div 10 = 1 /\ (o.n % 10) >= 1 THEN [k EXCEPT !.sup = TRUE]
                          ELSE IF o.n \div 10 = 0 THEN [k EXCEPT !.sc = 0, !.sm = << >>, !.vj = 0, !.vn = 0] ELSE k, o)
    [] o.op = "ucl" -> \* update_content_length_using_header
         IF ~DHas(m.h, NContentLength) THEN Det([m EXCEPT !.cl = Zero0], o)
         ELSE LET V == {LengthOf(v) : v \in DVals(m.h, NContentLength)} IN
              IF o.x THEN [ok |-> << >> \in V, m |-> m]
              ELSE [ok |-> o.r # << >> /\ o.r \in V, m |-> [m EXCEPT !.cl = o.r]]
    [] o.op = "ute" -> \* update_transfer_encoding_using_header (o.n: the recorded outcome)
         [ok |-> ~o.x /\ (o.n = 1) \in {IsChunkedValue(v) : v \in DGets(m.h, NTransferEncoding)}, m |-> [m EXCEPT !.chk = (o.n = 1)]]
    [] o.op = "uqs" -> [ok |-> ~o.x /\ WritesQueryCI(o.r, m.q), m |-> [m EXCEPT !.qs = o.r]]
    [] o.op = "uqp" -> [ok |-> ~o.x /\ WritesQueryCI(o.r, m.q),
                        m |-> [SetBody(m, o.r) EXCEPT !.method = TPost, !.h = DSet(@, CONTENT_TYPE, VUrlEncoded)]]
    \* cookies on a response
    [] o.op = "setc" -> Det([m EXCEPT !.h = DAdd(@, NSetCookie, SetCookie(o.a, o.b, <<SLASH>>, << >>))], o)
    [] o.op = "delc" -> Det([m EXCEPT !.h = DAdd(@, NSetCookie, SetCookie(o.a, << >>, <<SLASH>>, Zero0))], o)
=============================================================================
