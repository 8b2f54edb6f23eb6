------------------------------ MODULE SpdyMC -------------------------------
(* A peer sends frames in one packet, which may be cut anywhere; what the    *)
(* decoder of Spdy.tla reports is compared with what was sent.  Blocks are   *)
(* <<direction, number, text>>: they inflate only in their place.            *)
EXTENDS Spdy, TLC
CONSTANTS MaxFrames, Design   \* "two": a stream per direction; "one": a shared stream; "type": by frame type alone
B2(x) == <<x \div 256, x % 256>>
B4(x) == <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
Texts == { <<0, 0>>, <<0, 1, 0, 1, 97, 0, 1, 98>> }
TextHeaders(x) == IF Len(x) = 2 THEN << >> ELSE << << <<97>>, <<98>> >> >>
Kinds == [t : {SynStream, SynReply, Headers}, s : {1, 2}, x : Texts] \cup [t : {Data}, s : {3}, x : {<< >>, <<128, 2>>}]
         \cup [t : {Rst}, s : {1}, x : {B4(1) \o B4(5)}] \cup [t : {Ping}, s : {0}, x : {B4(7)}]
         \cup [t : {GoAway}, s : {0}, x : {B4(1) \o B4(0), B4(1) \o B4(1), B4(1)}] \cup [t : {Settings, Noop}, s : {0}, x : {<< >>}]
From(f) == IF f.s = 2 THEN "resp" ELSE IF f.t = SynStream THEN "req" ELSE "resp"      \* who sent it
FrameHead(f, len) == IF f.t = Data THEN B4(f.s) \o <<1, 0>> \o B2(len) ELSE <<128, 2>> \o B2(f.t) \o <<0, 0>> \o B2(len)
Code(d) == IF d = "req" THEN 1 ELSE 2
Count(fs, i, d) == Cardinality({j \in 1..(i-1) : HasBlock(fs[j].t) /\ From(fs[j]) = d})
Body(fs, i) == LET f == fs[i] IN
  IF HasBlock(f.t) THEN B4(f.s) \o (IF f.t = SynStream THEN B4(0) ELSE << >>) \o B2(0) \o <<Code(From(f)), Count(fs, i, From(f))>> \o f.x
  ELSE f.x
Wire(fs, i) == FrameHead(fs[i], Len(Body(fs, i))) \o Body(fs, i)
RECURSIVE Join(_,_)
Join(fs, i) == IF i > Len(fs) THEN << >> ELSE Wire(fs, i) \o Join(fs, i + 1)
Inflate(d, k, c) == IF Len(c) >= 2 /\ c[1] = Code(d) /\ c[2] = k THEN SubSeq(c, 3, Len(c)) ELSE Bad
Dir(t, s) == CASE Design = "two" -> Direction(t, s) [] Design = "one" -> "resp" [] OTHER -> IF t = SynStream THEN "req" ELSE "resp"
VARIABLES fs, cut, at, z, outs, over
vars == <<fs, cut, at, z, outs, over>>
Init == /\ fs \in UNION {[1..k -> Kinds] : k \in 1..MaxFrames}
        /\ cut \in 0..Len(Join(fs, 1))
        /\ at = 0 /\ z = New /\ outs = << >> /\ over = FALSE
Step == /\ ~over
        /\ LET p == SubSeq(Join(fs, 1), at + 1, cut) IN
           \E o \in Outs(z, p, Dir, Inflate) :
             /\ outs' = Append(outs, o)
             /\ z' = o.z
             /\ at' = IF o.rc = "i" /\ o.rp > 0 THEN at + o.rp ELSE at
             /\ over' = ~(o.rc = "i" /\ o.rp > 0)
        /\ UNCHANGED <<fs, cut>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Start(i) == Len(Join(SubSeq(fs, 1, i - 1), 1))
End(i) == Start(i) + Len(Wire(fs, i))
Ends(f) == f.t = GoAway /\ Len(f.x) = 8 /\ f.x[8] = 1        \* an error of the peer
\* what call i has to report
Right(i) == LET o == outs[i] IN
  IF i > Len(fs) \/ cut < Start(i) + 8 THEN o.rc = "i" /\ o.rp = 0
  ELSE LET f == fs[i]  whole == cut >= End(i)  len == Len(Body(fs, i)) IN
    IF ~whole /\ HasBlock(f.t) THEN o.rc = "f"
    ELSE IF Ends(f) /\ whole THEN o.rc = "f" /\ o.ec = {EProtocol}
    ELSE /\ o.rc = (IF cut > End(i) THEN "i" ELSE "t")
         /\ o.info.size = len
         /\ o.info.stream = (IF HasBlock(f.t) \/ f.t = Data THEN f.s ELSE 0)
         /\ o.info.last = (f.t = Data)
         /\ o.info.h = (IF HasBlock(f.t) THEN TextHeaders(f.x) ELSE << >>)
         /\ o.left = cut - (IF cut > End(i) THEN End(i) ELSE Start(i) + 8)
Truth == \A i \in 1..Len(outs) : Right(i)
Within == at <= cut /\ \A i \in 1..Len(outs) : outs[i].left <= cut
Finishes == <>over
=============================================================================
