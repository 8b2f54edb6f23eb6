------------------------------- MODULE ConnMC ------------------------------
(* A client sends requests back to back, in pieces of any size; the server  *)
(* reads what has arrived into a buffer of BufSize bytes, hands each request *)
(* over when it is complete, and reads on once it is answered.  Requests     *)
(* come out as they were sent, answered in order, up to the one that ends    *)
(* the connection, wherever the bytes are cut.                               *)
EXTENDS HttpServer
CONSTANTS BufSize, MaxPiece, Count
L(s) == s \o <<13,10>>
G(path, hs, body) == L(<<71,69,84,32,47>> \o path \o <<32,72,84,84,80,47,49,46,49>>) \o hs \o <<13,10>> \o body
HClose == L(<<67,111,110,110,101,99,116,105,111,110,58,32,99,108,111,115,101>>)
HLen   == L(<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,51>>)
HChunk == L(<<84,114,97,110,115,102,101,114,45,69,110,99,111,100,105,110,103,58,32,99,104,117,110,107,101,100>>)
Kinds == { [w |-> G(<<97>>, << >>, << >>), r |-> <<47,97>>, b |-> << >>, ka |-> TRUE],
           [w |-> G(<<98>>, HLen, <<71,13,10>>), r |-> <<47,98>>, b |-> <<71,13,10>>, ka |-> TRUE],
           [w |-> G(<<99>>, HChunk, L(<<50>>) \o L(<<13,10>>) \o L(<<48>>) \o <<13,10>>), r |-> <<47,99>>, b |-> <<13,10>>, ka |-> TRUE],
           [w |-> G(<<100>>, HClose, << >>), r |-> <<47,100>>, b |-> << >>, ka |-> FALSE] }
RECURSIVE Cat(_)
Cat(rs) == IF rs = << >> THEN << >> ELSE rs[1].w \o Cat(Tail(rs))
VARIABLES rs, wire, sent, buf, p, ph, got, answered
vars == <<rs, wire, sent, buf, p, ph, got, answered>>
O == [isreq |-> TRUE, max |-> 1000, pay |-> FALSE, honly |-> FALSE, head |-> FALSE]
Init == /\ rs \in [1..Count -> Kinds] /\ wire = Cat(rs) /\ sent = 0 /\ buf = << >> /\ p = NewParser(O) /\ ph = "reading" /\ got = << >> /\ answered = 0
Client == /\ sent < Len(wire) /\ \E k \in 1..MaxPiece : sent' = (IF sent + k > Len(wire) THEN Len(wire) ELSE sent + k) /\ UNCHANGED <<rs, wire, buf, p, ph, got, answered>>
\* read what has arrived, at most BufSize bytes; buf holds what was read and not yet parsed; wire position read so far
ReadPos == LET RECURSIVE Sum(_)
               Sum(i) == IF i > Len(got) THEN 0 ELSE got[i].n + Sum(i + 1)
           IN Sum(1) + p.n + Len(buf)
Read == /\ ph = "reading" /\ buf = << >> /\ ReadPos < sent
        /\ LET to == IF ReadPos + BufSize > sent THEN sent ELSE ReadPos + BufSize IN buf' = SubSeq(wire, ReadPos + 1, to)
        /\ UNCHANGED <<rs, wire, sent, p, ph, got, answered>>
Take == /\ ph = "reading" /\ buf # << >>
        /\ LET w == RCompress(buf)  q == Parse(p, w, 1, w[1][2])  used == q.n - p.n IN
           IF q.v = "ok" THEN /\ got' = Append(got, [r |-> RExpand(q.r), b |-> RExpand(q.body), ka |-> Asked(q).ka, n |-> q.n])
                              /\ buf' = SubSeq(buf, used + 1, Len(buf)) /\ ph' = "handling" /\ p' = NewParser(O)
           ELSE /\ p' = q /\ buf' = << >> /\ ph' = (IF q.v = "err" THEN "failed" ELSE ph) /\ UNCHANGED got
        /\ UNCHANGED <<rs, wire, sent, answered>>
Answer == /\ ph = "handling" /\ answered' = answered + 1 /\ ph' = (IF got[Len(got)].ka THEN "reading" ELSE "closed")
          /\ UNCHANGED <<rs, wire, sent, buf, p, got>>
Next == Client \/ Read \/ Take \/ Answer
Spec == Init /\ [][Next]_vars
Matching == /\ ph # "failed" /\ Len(got) <= Count
            /\ \A i \in 1..Len(got) : got[i].r = rs[i].r /\ got[i].b = rs[i].b /\ got[i].ka = rs[i].ka
OneAtATime == answered \in {Len(got), Len(got) - 1} /\ \A i \in 1..answered - 1 : got[i].ka
AllServed == (~ENABLED Next) => (ph = "closed" \/ Len(got) = Count) /\ answered = Len(got) /\ \A i \in 1..Len(got) - 1 : rs[i].ka
=============================================================================
