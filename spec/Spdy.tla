------------------------------- MODULE Spdy --------------------------------
(* Decoding SPDY (version 2 layout) from the packets of one connection.      *)
(*                                                                           *)
(* A decoder has consumed some header blocks in each of the two directions   *)
(* (each direction is one continuous compression stream) and looks at what   *)
(* is left of a packet, p.  Out(z, p, ...) is what one call may report and   *)
(* do.  Inflation is a parameter: Inflate(d, k, c) is the text of the k-th   *)
(* block c of direction d, or one of the markers below.                      *)
EXTENDS Bytes

U16(s, i) == s[i] * 256 + s[i+1]
U24(s, i) == s[i] * 65536 + s[i+1] * 256 + s[i+2]
U31(s, i) == (s[i] % 128) * 16777216 + U24(s, i+1)

Data == 0   SynStream == 1   SynReply == 2   Rst == 3   Settings == 4   Noop == 5
Ping == 6   GoAway == 7   Headers == 8   WindowUpdate == 9   Credential == 10
HasBlock(t) == t \in {SynStream, SynReply, Headers}
Prefix(t) == IF t = SynStream THEN 10 ELSE 6

EFrame == 1   EVersion == 2   EInflate == 3   EProtocol == 4   EInternal == 5   EMissing == 6
Errors == 1..6

\* header blocks of even (pushed) streams, replies and HEADERS come from the server
Direction(t, stream) == IF stream % 2 = 0 THEN "resp" ELSE IF t = SynStream THEN "req" ELSE "resp"

\* markers of Inflate
Bad == <<-1>>        \* cannot be inflated, or inflates to nothing or to more than the buffer holds
Either == <<-2>>     \* at the limit of the buffer: may be refused
Limit == 16384

\* name/value pairs of a header block: a count, then names and values, each with its length
RECURSIVE PairsFrom(_,_,_,_)
PairsFrom(s, i, k, acc) ==
  IF k = 0 THEN [ok |-> TRUE, l |-> acc]
  ELSE IF i + 1 > Len(s) THEN [ok |-> FALSE, l |-> acc]
  ELSE LET ln == U16(s, i)  v == i + 2 + ln IN
       IF v + 1 > Len(s) THEN [ok |-> FALSE, l |-> acc]
       ELSE LET lv == U16(s, v) IN
            IF v + 1 + lv > Len(s) THEN [ok |-> FALSE, l |-> acc]
            ELSE PairsFrom(s, v + 2 + lv, k - 1, Append(acc, <<SubSeq(s, i + 2, i + 1 + ln), SubSeq(s, v + 2, v + 1 + lv)>>))
Pairs(s) == IF Len(s) < 2 THEN [ok |-> FALSE, l |-> << >>] ELSE PairsFrom(s, 3, U16(s, 1), << >>)

\* a decoder: blocks consumed in each direction, and the directions that lost their stream
New == [req |-> 0, resp |-> 0, lost |-> {}]

Nothing == [type |-> 0, stream |-> 0, off |-> 0, size |-> 0, last |-> FALSE, h |-> << >>]

\* rc: "t" the packet ends in this frame, "i" look further at rp with left bytes, "f" error.
\* cp: where the content is.  Fields that are -1 are not determined.
Fail(z, E) == [rc |-> "f", ec |-> E, z |-> z, info |-> Nothing, left |-> -1, rp |-> -1, cp |-> -1]
Incomplete(z, p) == [rc |-> "i", ec |-> {0}, z |-> z, info |-> Nothing, left |-> Len(p), rp |-> 0, cp |-> -1]

Frame(z, p, len, info, cp) ==
  LET more == Len(p) - 8 > len IN
  [rc |-> IF more THEN "i" ELSE "t", ec |-> {0}, z |-> z, info |-> info,
   left |-> IF more THEN Len(p) - 8 - len ELSE Len(p) - 8,
   rp |-> IF more THEN 8 + len ELSE -1, cp |-> cp]

Kind(t) == IF t = SynStream THEN 1 ELSE IF t = SynReply THEN 2 ELSE IF t = Data THEN 3
           ELSE IF t \in {Headers, Noop} THEN 0 ELSE 4

Lose(z, d) == [z EXCEPT !.lost = @ \cup {d}]
Blocked(z, p, t, ver, len, Dir(_,_), Inflate(_,_,_)) ==
  LET stream == U31(p, 9)  d == Dir(t, stream)
      k == IF d = "req" THEN z.req ELSE z.resp
      zk == IF d = "req" THEN [z EXCEPT !.req = @ + 1] ELSE [z EXCEPT !.resp = @ + 1]
      c == SubSeq(p, 9 + Prefix(t), 8 + len)
      text == Inflate(d, k, c)
      ps == Pairs(text)
      info == [Nothing EXCEPT !.type = Kind(t), !.stream = stream, !.off = 8, !.size = len, !.h = ps.l]
  IN IF d \in z.lost THEN {[Fail(z, Errors) EXCEPT !.rc = "any"]}
     ELSE IF text = Either THEN {[Fail(Lose(z, d), Errors) EXCEPT !.rc = "any"]}
     ELSE IF text = Bad THEN {Fail(Lose(z, d), {EInflate, EMissing})}
     ELSE IF ~ps.ok THEN {Fail(zk, Errors)}
     ELSE {Frame(zk, p, len, info, 8 + Prefix(t))}

Outs(z, p, Dir(_,_), Inflate(_,_,_)) ==
  IF Len(p) = 0 THEN {Incomplete(z, p)}
  ELSE IF p[1] \notin {0, 128} THEN {Fail(z, {EFrame})}
  ELSE IF Len(p) < 8
       THEN {Incomplete(z, p)} \cup
            (IF p[1] = 128 /\ ((Len(p) >= 4 /\ U16(p, 3) \notin 1..10) \/ (Len(p) >= 2 /\ p[2] > 3)) THEN {Fail(z, {EFrame, EVersion})} ELSE {})
  ELSE
    LET ctl == p[1] = 128
        t == IF ctl THEN U16(p, 3) ELSE Data
        ver == IF ctl THEN p[2] ELSE 1
        flags == p[5]
        len == U24(p, 6)
        here == Len(p) - 8
        all == here >= len
        info == [Nothing EXCEPT !.type = Kind(t), !.off = 8, !.size = len]
    IN IF ctl /\ t \notin 1..10 THEN {Fail(z, IF ver > 3 THEN {EFrame, EVersion} ELSE {EFrame})}
       ELSE IF HasBlock(t) /\ (~all \/ len < Prefix(t)) THEN
              \* which direction loses its block depends on the stream id, if it is there at all
              {Fail(Lose(Lose(z, "req"), "resp"), Errors)}
       ELSE IF ver > 3 THEN {Fail(IF HasBlock(t) THEN Lose(Lose(z, "req"), "resp") ELSE z, {EVersion})}
       ELSE (IF ver = 0 THEN {Fail(IF HasBlock(t) THEN Lose(Lose(z, "req"), "resp") ELSE z, {EVersion})} ELSE {}) \cup
            (IF ~ctl THEN {Frame(z, p, len, [info EXCEPT !.stream = U31(p, 1), !.last = flags % 2 = 1], 8)}
             ELSE IF HasBlock(t) THEN Blocked(z, p, t, ver, len, Dir, Inflate)
             ELSE IF t = GoAway /\ all /\ len = 8 /\ U16(p, 13) = 0 /\ U16(p, 15) \in {1, 11}
                  THEN {Fail(z, {IF U16(p, 15) = 1 THEN EProtocol ELSE EInternal})}
             ELSE {Frame(z, p, len, info,
                    IF all /\ ((t = Rst /\ len = 8 /\ flags = 0) \/ (t = Ping /\ len = 4) \/ (t = GoAway /\ len \in {4, 8})) THEN 12 ELSE 8)})

Out(z, p, Inflate(_,_,_)) == Outs(z, p, Direction, Inflate)

\* static tests of the first bytes
FrameType(p) == IF p[1] = 128 THEN 2 ELSE IF p[1] = 0 THEN 1 ELSE 3
IsControl12(p) == p[1] = 128 /\ p[2] \in 1..3 /\ U16(p, 3) \in 1..10
=============================================================================
