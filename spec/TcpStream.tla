----------------------------- MODULE TcpStream ------------------------------
(* What a user of pion::tcp::stream can rely on: an iostream that carries   *)
(* bytes in order in both directions.  Byte number i of either direction is *)
(* Byte(i); recorded bytes come as runs <<first, length>> of successors.    *)
EXTENDS Integers, Sequences
Period == 251
Byte(i) == (i % Period) + 5
PutBack == 10
VARIABLES
  sent,   \* bytes the peer has given to its socket
  fin,    \* the peer has ended its direction
  gone,   \* the peer has closed its socket
  lossy,  \* ... while bytes were on their way to it: what it sent may be lost
  pos, hw, \* next byte to read; the furthest it has been
  wrote,  \* bytes the user gave to the stream
  flushed, \* of these, how many the stream reported as sent
  got,    \* of these, how many the peer has read
  broken, \* the stream reported that it could not send
  cancels, \* pending operations were cancelled that often and not yet noticed
  ended,  \* the stream was closed or destroyed
  again,  \* the user went on writing after that
  late,   \* the user went on writing after the stream was closed
  told,   \* a read has reported the end of what the peer sends
  call    \* the operation in progress [op, n] and the peer's read
tvars == <<sent, fin, gone, lossy, pos, hw, wrote, flushed, got, broken, cancels, ended, again, late, told, call>>
None == [op |-> "-", n |-> 0]
TInit == sent = 0 /\ fin = FALSE /\ gone = FALSE /\ lossy = FALSE /\ pos = 0 /\ hw = 0 /\ wrote = 0 /\ flushed = 0 /\ got = 0 /\ broken = FALSE /\ cancels = 0 /\ ended = "" /\ again = FALSE /\ late = FALSE /\ told = FALSE /\ call = None
\* the runs say k bytes starting with number p
Are(runs, p, k) == IF k = 0 THEN runs = << >> ELSE Len(runs) = 1 /\ runs[1] = <<Byte(p), k>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
(* --------------------------------- peer -------------------------------- *)
PeerSends(n)  == ~fin /\ sent' = sent + n /\ UNCHANGED <<fin, gone, lossy, pos, hw, wrote, flushed, got, broken, cancels, ended, again, late, told, call>>
PeerEnds      == fin' = TRUE /\ UNCHANGED <<sent, gone, lossy, pos, hw, wrote, flushed, got, broken, cancels, ended, again, late, told, call>>
Writes == {"w", "c", "f", "W", "Z"}
PeerCloses    == fin' = TRUE /\ gone' = TRUE /\ lossy' = (wrote > got \/ call.op \in Writes) /\ UNCHANGED <<sent, pos, hw, wrote, flushed, got, broken, cancels, ended, again, late, told, call>>
Over == IF ended = "" /\ call.op \in {"x", "Z"} THEN call.op ELSE ended
\* (a failed write loses bytes: what is written after it comes after a gap)
\* the peer reads until it has n bytes: fewer only when the stream has ended, and then everything that was to be sent has arrived
PeerReads(n, runs, k) ==
  /\ k <= n /\ (Are(runs, got, k) \/ (broken /\ again)) /\ got + k <= wrote + (IF call.op \in {"w", "W"} THEN call.n ELSE IF call.op = "c" THEN 1 ELSE 0)
  /\ k < n => Over # "" /\ (~broken => got + k >= flushed /\ (Over = "Z" => got + k = wrote))
  /\ got' = got + k /\ UNCHANGED <<sent, fin, gone, lossy, pos, hw, wrote, flushed, broken, cancels, ended, again, late, told, call>>
Cancel == cancels' = cancels + 1 /\ UNCHANGED <<sent, fin, gone, lossy, pos, hw, wrote, flushed, got, broken, ended, again, late, told, call>>

(* -------------------------------- stream ------------------------------- *)
Call(op, n) == call = None /\ call' = [op |-> op, n |-> n] /\ UNCHANGED <<sent, fin, gone, lossy, pos, hw, wrote, flushed, got, broken, cancels, ended, again, late, told>>
Done == call' = None
In(p) == pos' = p /\ hw' = Max(hw, p) /\ UNCHANGED <<sent, fin, gone, lossy, wrote, flushed, got, broken, ended, again, late>>
\* reading ended early: the peer ended, or reading was cancelled
Short(k) == \/ /\ (fin \/ ended # "")
               /\ (lossy \/ ended # "" \/ pos + k = sent)
               /\ told' = TRUE /\ UNCHANGED cancels
            \/ /\ cancels > 0 /\ cancels' = cancels - 1 /\ UNCHANGED told
Full == UNCHANGED <<cancels, told>>
Read(runs, k) == call.op = "r" /\ k <= call.n /\ pos + k <= sent /\ Are(runs, pos, k) /\ (IF k < call.n THEN Short(k) ELSE Full) /\ In(pos + k) /\ Done
Get(runs, k)  == call.op = "g" /\ k <= 1 /\ pos + k <= sent /\ Are(runs, pos, k) /\ (IF k = 0 THEN Short(0) ELSE Full) /\ In(pos + k) /\ Done
Peek(runs, k) == call.op = "p" /\ k <= 1 /\ pos + k <= sent /\ Are(runs, pos, k) /\ (IF k = 0 THEN Short(0) ELSE Full) /\ In(pos) /\ Done
\* what is there already
Some(runs, k) == call.op = "s" /\ k <= call.n /\ pos + k <= sent /\ Are(runs, pos, k) /\ Full /\ In(pos + k) /\ Done
Unget(k)      == call.op = "u" /\ k \in {0, 1} /\ (k = 0 => pos = 0 \/ pos <= hw - PutBack) /\ (k = 1 => pos > 0) /\ Full /\ In(pos - k) /\ Done
\* putting back another byte than the one that was read
Alien(k)      == call.op = "a" /\ k = 0 /\ UNCHANGED <<cancels, told, pos, hw>> /\ UNCHANGED <<sent, fin, gone, lossy, wrote, flushed, got, broken, ended, again, late>> /\ Done
Out(w, f, b) == wrote' = w /\ flushed' = f /\ broken' = b /\ lossy' = (lossy \/ gone) /\ again' = (again \/ (broken /\ w > wrote)) /\ late' = (late \/ (ended # "" /\ w > wrote)) /\ UNCHANGED <<sent, fin, gone, pos, hw, got, told>> /\ Done
MayFail == broken \/ gone \/ ended # "" \/ cancels > 0
Write(ok)  == /\ call.op \in {"w", "W", "c"} /\ UNCHANGED <<cancels, ended>> /\ (~ok => MayFail)
              /\ Out(wrote + (IF call.op = "c" THEN 1 ELSE call.n), flushed, broken \/ ~ok)
Flush(ok)  == call.op = "f" /\ UNCHANGED <<cancels, ended>> /\ (~ok => MayFail) /\ (ok /\ late => broken) /\ Out(wrote, IF ok /\ ~broken THEN wrote ELSE flushed, broken \/ ~ok)
Close      == call.op = "x" /\ ended' = (IF ended = "" THEN "x" ELSE ended) /\ UNCHANGED cancels /\ Out(wrote, flushed, broken)
Destroy    == call.op = "Z" /\ ended' = (IF ended = "" THEN "Z" ELSE ended) /\ UNCHANGED cancels /\ Out(wrote, IF MayFail THEN flushed ELSE wrote, broken \/ MayFail)
Return(runs, k) == \/ Read(runs, k) \/ Get(runs, k) \/ Peek(runs, k) \/ Some(runs, k) \/ Unget(k) \/ Alien(k) \/ Write(k = 1) \/ Flush(k = 1) \/ (Close /\ k = 1) \/ (Destroy /\ k = 1)
\* nothing can happen any more: the user waits only for bytes that have not been sent, the peer only for bytes that have not been written out
\* (small: the network holds little, so that writing may have to wait for the peer to read)
Quiet(peerwants, small) ==
  /\ call # None => \/ /\ call.op \in {"r", "g", "p"} /\ (~fin \/ told) /\ ended = ""
                       /\ IF call.op = "r" THEN pos + call.n > sent ELSE pos >= sent
                    \/ small /\ ~gone /\ call.op \in Writes /\ got < wrote + (IF call.op \in {"f", "Z"} THEN 0 ELSE IF call.op = "c" THEN 1 ELSE call.n)
                    \* what comes after a failure is undefined
                    \/ broken /\ (call.op \in {"w", "W", "c"} \/ (again /\ call.op \in {"f", "Z"}))
  /\ peerwants > 0 => (small \/ (ended = "" /\ (broken \/ got + peerwants > flushed)))
TTypeOK == pos <= hw /\ hw <= sent /\ flushed <= wrote /\ got <= wrote + call.n + 1
=============================================================================
