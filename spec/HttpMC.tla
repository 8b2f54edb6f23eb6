------------------------------- MODULE HttpMC -------------------------------
(***************************************************************************)
(* A sender writes a pipeline of messages; the parser reads it byte by     *)
(* byte.  Checked for every pipeline of Count messages of a small grammar: *)
(* each message is completed exactly at its last byte, and everything it   *)
(* carries is what was sent (P02, P03, P05); before that no message is     *)
(* complete, and at every cut the end of stream is judged rightly (P06).   *)
(***************************************************************************)
EXTENDS HttpParser, TLC

CONSTANTS Request, Count, Max, Pay, Level
\* Level: 0 few messages (for pipelines), 1 more, 2 all line endings too

EolS == IF Level = 2 THEN { <<13,10>>, <<10>>, <<13>> } ELSE { <<13,10>> }
Methods == IF Level = 0 THEN { <<71>> } ELSE { <<71>>, <<72,69>> }
Uris == IF Level = 0 THEN { <<47,97>> } ELSE { <<47>>, <<47,97>> }
Queries == IF Level = 0 THEN { <<63,97,61>> } ELSE { << >>, <<63>>, <<63,97,61>> }
Hdrs == IF Level = 0 THEN { << >>, << <<65>>, <<98>> >> } ELSE { << >>, << <<65>>, <<98>> >>, << <<65>>, << >> >> }   \* none, A: b, A:
Data == <<100,13,10,48>>
Framings == [kind : {"none", "cl0", "cl", "chunked"}, len : {1, 3}, trail : BOOLEAN, cut : {1, 2}]
FramingSet == {f \in Framings : /\ (f.kind \in {"none", "cl0"} => f.len = 1)
                                /\ (f.kind # "chunked" => ~f.trail /\ f.cut = 1)}
Statuses == {200, 204, 100}
W_CL == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104>>
W_TE == <<84,114,97,110,115,102,101,114,45,69,110,99,111,100,105,110,103>>
W_HTTP == <<72,84,84,80,47,49,46,49>>

Body(f) == IF f.kind \in {"cl", "chunked"} THEN SubSeq(Data, 1, f.len) ELSE << >>
Trail(f) == IF f.kind = "chunked" /\ f.trail THEN << << <<84>>, <<118>> >> >> ELSE << >>
FrameHdr(f) == CASE f.kind = "none" -> << >>
                 [] f.kind = "cl0" -> << <<W_CL, <<48>> >> >>
                 [] f.kind = "cl" -> << <<W_CL, <<48 + f.len>> >> >>
                 [] f.kind = "chunked" -> << <<W_TE, <<99,104,117,110,107,101,100>> >> >>
NoBodyStatus(m) == ~Request /\ m.sc \in {204, 100}

Msgs == IF Request
        THEN [meth : Methods, uri : Uris, q : Queries, h : Hdrs, f : FramingSet, eol : EolS, sc : {0}]
        ELSE {m \in [meth : {<<71>>}, uri : {<<47>>}, q : {<< >>}, h : Hdrs, f : FramingSet, eol : EolS, sc : Statuses] :
               m.f.kind # "none" \/ m.sc # 200}
HeaderList(m) == (IF m.h = << >> THEN << >> ELSE <<m.h>>) \o FrameHdr(m.f)
HdrBytes(hs, e) == LET F[i \in 0..Len(hs)] == IF i = 0 THEN << >> ELSE F[i-1] \o hs[i][1] \o <<58,32>> \o hs[i][2] \o e
                   IN F[Len(hs)]
Num3(n) == <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
ChunkBytes(f) == LET b == Body(f)  c == Min2(f.cut, Len(b))
                     one(s) == <<48 + Len(s), 13, 10>> \o s \o <<13, 10>>
                 IN one(SubSeq(b, 1, c)) \o (IF c < Len(b) THEN one(SubSeq(b, c+1, Len(b))) ELSE << >>)
                    \o <<48, 13, 10>> \o HdrBytes(Trail(f), <<13,10>>) \o <<13, 10>>
Encode(m) == (IF Request THEN m.meth \o <<32>> \o m.uri \o m.q \o <<32>> \o W_HTTP
              ELSE W_HTTP \o <<32>> \o Num3(m.sc) \o <<32, 79>>) \o m.eol
             \o HdrBytes(HeaderList(m), m.eol) \o m.eol
             \o (IF NoBodyStatus(m) THEN << >>
                 ELSE CASE m.f.kind = "cl" -> Body(m.f) [] m.f.kind = "chunked" -> ChunkBytes(m.f) [] OTHER -> << >>)

O == [isreq |-> Request, max |-> Max, pay |-> Pay, honly |-> FALSE, head |-> FALSE]
VARIABLES sent, wire, p, at, got, done
vars == <<sent, wire, p, at, got, done>>
\* wire: what is left to read of message got+1 .. Count
Wire(s) == LET F[i \in 0..Count] == IF i = 0 THEN << >> ELSE F[i-1] \o Encode(s[i]) IN F[Count]
Init == /\ sent \in [1..Count -> Msgs]
        /\ wire = Wire(sent) /\ p = NewParser(O) /\ at = 0 /\ got = 0 /\ done = FALSE
Read == /\ at < Len(wire) /\ p.v = "more"
        /\ LET r == Absorb(p, wire[at+1], 1) IN p' = r.p /\ at' = at + r.u
        /\ UNCHANGED <<sent, wire, got, done>>
Deliver1 == /\ p.v = "ok" /\ got' = got + 1 /\ p' = NewParser(O) /\ UNCHANGED <<sent, wire, at, done>>
Next == Read \/ Deliver1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RHdrs(hs) == [i \in 1..Len(hs) |-> <<RCompress(hs[i][1]), RCompress(hs[i][2])>>]
ExpBody(m) == IF NoBodyStatus(m) THEN << >> ELSE Body(m.f)
ExpHdrs(m) == HeaderList(m) \o (IF NoBodyStatus(m) THEN << >> ELSE Trail(m.f))
Decoded == p.v = "ok" =>
  LET m == sent[got + 1] IN
  /\ p.n = Len(Encode(m))
  /\ Request => /\ p.m = RCompress(m.meth) /\ p.r = RCompress(m.uri)
                /\ p.q = (IF m.q = << >> THEN << >> ELSE RCompress(Tail(m.q)))
  /\ ~Request => p.sc = m.sc
  /\ p.vj = 1 /\ p.vn = 1
  /\ SameBag(p.h, RHdrs(ExpHdrs(m)))
  /\ IF Pay THEN p.pl = RCompress(ExpBody(m))
     ELSE p.body = RCompress(SubSeq(ExpBody(m), 1, Min2(Max, Len(ExpBody(m)))))
  /\ p.val /\ p.st = 3
NeverFails == p.v # "err" /\ ParserInv(p)
\* inside a message the end of stream is premature, and what is left is not valid
\* (except a chunked body cut just between chunks, which cannot be told from its end)
CutJudged == (p.v = "more" /\ p.ms # "START") =>
               Premature(p) /\ (~Finish(p).val \/ (p.ms = "CHUNKS" /\ p.cs = "SIZE_START"))
AllDelivered == <>(got = Count)
=============================================================================
