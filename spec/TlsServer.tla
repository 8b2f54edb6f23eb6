------------------------------ MODULE TlsServer -----------------------------
(***************************************************************************)
(* An HTTP server that was given a key: the server of HttpServer.tla behind *)
(* TLS.  A connection is                                                    *)
(*   shaking  accepted; nothing a client sends reaches a handler             *)
(*   up       the handshake is over: what goes in through TLS is what the    *)
(*            HTTP server is given, what it answers comes out through TLS    *)
(*   broken   it was sent what TLS does not accept: it is never served again *)
(*            and ends, at the latest when the client ends it                *)
(*   gone     ended                                                          *)
(* A message counts when all its bytes are there: one sent in part is not    *)
(* seen, one altered on the way ends the connection.                         *)
(***************************************************************************)
EXTENDS HttpServer
RECORD_TYPES == 20..23
NewTls(auth, au, nconn, good) ==
  [in |-> NewServer(auth, au, nconn), t |-> [c \in 1..nconn |-> "none"], part |-> [c \in 1..nconn |-> << >>], begun |-> [c \in 1..nconn |-> FALSE], good |-> good]
Waiting(s) == Cardinality({c \in DOMAIN s.t : s.t[c] \in {"shaking", "broken"}})
\* what the clients see of TLS: only records, none that a live connection cannot read, from the right server
Framed(s, w, c) == (\A i \in 1..Len(w.t) : w.t[i] \in RECORD_TYPES) /\ w.y /\ (s.t[c] = "up" => ~w.z)
\* nothing but, perhaps, the end of connection c
Mute(o, c) == o.calls = << >> /\ \A i \in 1..Len(o.out) : o.out[i].d = << >> /\ (o.out[i].e => o.out[i].c + 1 = c)
View(o, c) == LET S == {i \in 1..Len(o.out) : o.out[i].c + 1 = c} IN IF S = {} THEN [f |-> FALSE, l |-> 0, e |-> FALSE] ELSE LET w == o.out[OneOf(S)] IN [f |-> w.f, l |-> w.l, e |-> w.e]
\* the HTTP server does what it does on o
Inner(s, o) == LET r == Step(s.in, [o EXCEPT !.nc = @ - Waiting(s)]) IN IF Has(r) THEN r ELSE [s EXCEPT !.in = r.s]
Counted(s, o) == IF o.nc # Open(s.in) + Waiting(s) THEN Bad("number of connections") ELSE s
\* connection c, that was up, is not the HTTP server's any more
Leave(s, c) == [s EXCEPT !.in.conns[c].st = "gone"]
Whole(s, o, c, a) == Inner([s EXCEPT !.part[c] = << >>], [o EXCEPT !.op = "S", !.a = a])
Plainly(a) == LET b == RExpand(a) IN Len(b) >= 11 /\ b[1] < 128 /\ b[1] # 22     \* nothing TLS begins with
Broken(s, o, c, must) ==
  IF ~Mute(o, c) THEN Bad("served what did not come through TLS")
  ELSE IF must /\ ~View(o, c).e THEN Bad("connection not closed after what TLS does not accept")
  ELSE Counted([Leave(s, c) EXCEPT !.t[c] = IF View(o, c).e THEN "gone" ELSE "broken"], o)
TlsAct(s, o) ==
  LET c == o.c + 1  v == View(o, c)  t == s.t[c] IN
  CASE o.op = "C" -> IF ~Mute(o, 0) THEN Bad("served before the handshake") ELSE Counted([s EXCEPT !.t[c] = "shaking", !.part[c] = << >>, !.begun[c] = FALSE, !.in.conns[c] = None], o)
    [] o.op = "G" /\ t = "shaking" ->
         IF ~Mute(o, c) THEN Bad("served before the handshake is over")
         ELSE IF ~s.good THEN (IF v.f THEN Bad("handshake without a key") ELSE IF v.e THEN Counted([s EXCEPT !.t[c] = "gone"], o) ELSE IF o.n = 0 THEN Bad("connection not closed after a failed handshake") ELSE Counted([s EXCEPT !.begun[c] = TRUE], o))
         ELSE IF v.e THEN Bad("connection closed during a good handshake")
         ELSE IF v.f THEN (LET r == Inner([s EXCEPT !.t[c] = "up"], [o EXCEPT !.op = "C", !.out = << >>]) IN r)
         ELSE IF o.n = 0 THEN Bad("a good handshake does not end") ELSE Counted([s EXCEPT !.begun[c] = TRUE], o)
    [] o.op = "G" /\ t = "up" /\ s.part[c] # << >> -> IF v.l = 0 THEN Whole(s, o, c, s.part[c]) ELSE IF ~Mute(o, 0) THEN Bad("served a message that is not complete") ELSE Counted(s, o)
    [] o.op = "N" /\ t = "up" /\ s.part[c] = << >> -> IF v.l = 0 THEN Whole(s, o, c, o.a) ELSE IF ~Mute(o, 0) THEN Bad("served a message that is not complete") ELSE Counted([s EXCEPT !.part[c] = o.a], o)
    [] o.op = "J" /\ t \in {"shaking", "up", "broken"} -> Broken(s, o, c, t = "shaking" /\ ~s.begun[c] /\ Plainly(o.a))
    [] o.op = "M" /\ t = "up" /\ s.part[c] = << >> -> Broken(s, o, c, o.n >= 5)
    [] o.op \in {"E", "X"} /\ t = "shaking" -> IF ~Mute(o, c) THEN Bad("served before the handshake is over") ELSE IF o.op = "E" /\ ~v.e THEN Bad("connection not closed") ELSE Counted([s EXCEPT !.t[c] = "gone"], o)
    [] o.op \in {"E", "X"} /\ t = "broken" -> IF ~Mute(o, c) THEN Bad("served what did not come through TLS") ELSE IF o.op = "E" /\ ~v.e THEN Bad("connection not closed") ELSE Counted([s EXCEPT !.t[c] = "gone"], o)
    [] o.op \in {"E", "Y", "X"} /\ t = "up" -> Inner(s, IF o.op = "Y" THEN [o EXCEPT !.op = "E"] ELSE o)
    [] o.op \in {"S", "K"} /\ t = "up" /\ s.part[c] = << >> -> Inner(s, o)
    [] o.op \in {"G", "N", "J", "M", "E", "Y", "X", "S", "K"} -> IF t = "broken" THEN Broken(s, o, c, FALSE) ELSE IF ~Mute(o, 0) THEN Bad("served a connection that is not up") ELSE Counted(s, o)
    [] OTHER -> Inner(s, o)      \* tables, clock, answers to deferred requests
TlsStep(s, o) ==
  LET r == TlsAct(s, o) IN
  IF Has(r) THEN r
  ELSE IF \E i \in 1..Len(o.out) : ~Framed(r, o.out[i], o.out[i].c + 1) THEN Bad("not TLS, or not with the server's certificate")
  ELSE [r EXCEPT !.t = [c \in DOMAIN r.t |-> IF r.t[c] = "up" /\ r.in.conns[c].st \in {"gone", "closed"} THEN "gone" ELSE r.t[c]]]
RECURSIVE TlsHistory(_,_,_)
TlsHistory(s, os, i) == IF i > Len(os) THEN [i |-> 0, why |-> "ok"]
                        ELSE LET r == TlsStep(s, os[i]) IN IF Has(r) THEN [i |-> i, why |-> r.why] ELSE TlsHistory(r, os, i + 1)
=============================================================================
