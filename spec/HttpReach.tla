----------------------------- MODULE HttpReach ------------------------------
(***************************************************************************)
(* Explores the parser over an alphabet of representative bytes and words  *)
(* and prints, for every control state, a shortest input that leads there. *)
(* The conformance driver continues each of these inputs with every byte.  *)
(* Limits are small here, so that the limit edges are explored as well.    *)
(***************************************************************************)
EXTENDS HttpParser, TLC, Sequences, FiniteSets

CONSTANTS MaxTokens, Request, HeadReply, Pay, Max
ASSUME MaxTokens \in Nat

\* representative bytes of the character classes, and words
Reps == {<<0>>, <<9>>, <<10>>, <<13>>, <<32>>, <<48>>, <<49>>, <<53>>, <<58>>, <<59>>, <<63>>, <<46>>,
         <<47>>, <<65>>, <<72>>, <<84>>, <<80>>, <<103>>, <<127>>, <<200>>}
W_HTTP11 == <<72,84,84,80,47,49,46,49>>
W_CRLF == <<13,10>>
W_CL2 == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,50>>
W_CLX == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,50,103>>
W_TE == <<84,114,97,110,115,102,101,114,45,69,110,99,111,100,105,110,103,58,32,67,104,117,110,107,101,100>>
W_204 == <<32,50,48,52>>
W_200 == <<32,50,48,48>>
W_HV == <<65,58,32,65>>
Tokens == Reps \cup {W_HTTP11, W_CRLF, W_CL2, W_CLX, W_TE, W_204, W_200, W_HV}

VARIABLES p, hist, cnt
vars == <<p, hist, cnt>>

O == [isreq |-> Request, max |-> Max, pay |-> Pay, honly |-> FALSE, head |-> HeadReply]
Init == p = NewParser(O) /\ hist = << >> /\ cnt = 0

RECURSIVE FeedAll(_,_)
FeedAll(q, s) == IF s = << >> \/ q.v # "more" THEN q
                 ELSE LET r == Absorb(q, s[1], 1) IN
                      IF r.u = 0 THEN r.p ELSE FeedAll(r.p, Tail(s))
Next == /\ p.v = "more" /\ cnt < MaxTokens
        /\ \E t \in Tokens : p' = FeedAll(p, t) /\ hist' = hist \o t /\ cnt' = cnt + 1
Spec == Init /\ [][Next]_vars

Cap(n, k) == IF n > k THEN k ELSE n
Framing(q) == <<HasHeader(q.h, CONTENT_LENGTH), HasHeader(q.h, TRANSFER_ENCODING)>>
Ctl(q) == <<q.ms, q.hs, q.cs, q.v, q.ec, q.vj = 0, Cap(Len(q.h), 1), Framing(q), q.csz > 0, q.cr > 0, q.rem, q.blen, q.sc \in {204, 200, 0}, q.hv # << >> >>
View == Ctl(p)
Inv == ParserInv(p)
\* one line for every control state reached without an end
Report == (p.v = "more" /\ hist # << >>) => PrintT(<<"@@", hist>>)
\* an accepted message was framed in one of the allowed ways
Framed == p.v = "ok" => \/ p.rem = 0 /\ p.ms = "END"
\* feeding a run of equal bytes is the same as feeding them one by one,
\* and no division of the input matters
RECURSIVE Drain(_,_,_)
Drain(q, b, k) == IF k = 0 \/ q.v # "more" THEN q
                  ELSE LET r == Absorb(q, b, k) IN IF r.u = 0 THEN r.p ELSE Drain(r.p, b, k - r.u)
RECURSIVE Single(_,_,_)
Single(q, b, k) == IF k = 0 \/ q.v # "more" THEN q
                   ELSE LET r == Absorb(q, b, 1) IN IF r.u = 0 THEN r.p ELSE Single(r.p, b, k - 1)
BulkLemma == p.v = "more" => \A t \in Reps : \A k \in 2..4 : Drain(p, t[1], k) = Single(p, t[1], k)
\* an error is final and a message never valid after it
ErrFinal == p.v = "err" => ~p.val /\ p.st # 3
=============================================================================
