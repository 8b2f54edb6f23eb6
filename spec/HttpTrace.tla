----------------------------- MODULE HttpTrace ------------------------------
(***************************************************************************)
(* Validates recorded runs of the real parser against HttpParser.          *)
(* Every recorded case is one initial state; its input is fed to the       *)
(* specification run by run, and at the end of each message (or at an      *)
(* error, or at the end of the stream) the recorded outcome must match     *)
(* the specification's in the projection of the property (env. PROP).      *)
(* A record has a common prefix `pre' of input (within the first message)  *)
(* and alternatives that continue it, so that all bytes tried in one       *)
(* parser state share the way there:                                       *)
(*   [o, pre: runs, alts: << [id, ops, outs] >>]                           *)
(***************************************************************************)
EXTENDS HttpParser, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES tid, alt, p, oi, ri, left, mi, verdict
vars == <<tid, alt, p, oi, ri, left, mi, verdict>>

R == Cases[tid]
C == R.alts[alt]
\* the k-th message of every distinct recorded outcome
Nth(k) == {j \in 1..Len(C.outs) : Len(C.outs[j]) >= k}
All(k) == Nth(k) = 1..Len(C.outs)

BodyOk(o, s) == IF s.pay THEN o.pl = s.pl
                ELSE s.honly \/ (o.cl = s.cl /\ o.b = RTake(s.body, s.cl))
HeadOk(o, s) == /\ o.m = s.m /\ o.r = s.r /\ o.q = s.q /\ o.vj = s.vj /\ o.vn = s.vn
              /\ (s.isreq \/ (o.sc = s.sc /\ o.sm = s.sm))
              /\ SameBag(o.h, s.h)
\* recorded outcome o agrees with the completed message s
OkMatch(o, s) ==
  /\ o.v = "ok"
  /\ CASE PROP = "P02" -> o.n = s.n /\ BodyOk(o, s) /\ o.val /\ o.chk = s.chk
       [] PROP = "P03" -> HeadOk(o, s)
       [] PROP = "P04" -> o.ec = 0 /\ o.val
       [] PROP = "P05" -> o.n = s.n /\ BodyOk(o, s) /\ SameBag(o.h, s.h) /\ o.val
       [] PROP = "P06" -> o.n = s.n /\ BodyOk(o, s) /\ o.val = s.val /\ o.st = s.st
       [] OTHER -> o.n = s.n /\ BodyOk(o, s) /\ HeadOk(o, s) /\ o.val = s.val /\ o.st = s.st /\ o.chk = s.chk
ErrMatch(o, s) ==
  /\ o.v = "err"
  /\ CASE PROP \in {"P02", "P03", "P05"} -> TRUE
       [] PROP = "P06" -> o.ec = s.ec /\ ~o.val /\ o.st = s.st
       [] OTHER -> o.ec = s.ec /\ ~o.val
\* the stream ended within message s
MoreMatch(o, s) ==
  LET f == Finish(s) IN
  /\ o.v = "more"
  /\ CASE PROP = "P06" -> /\ o.prem = (IF Premature(s) THEN 1 ELSE 0)
                          /\ o.val = f.val /\ o.st = f.st /\ o.n = s.n /\ BodyOk(o, f)
       [] PROP = "P02" -> Premature(s) \/ BodyOk(o, f)
       [] PROP = "P05" -> s.ms # "CHUNKS" \/ BodyOk(o, f)
       [] OTHER -> TRUE

Init == /\ tid \in 1..Len(Cases)
        /\ alt = 0 /\ p = NewParser(R.o) /\ oi = 1 /\ ri = 1 /\ left = 0 /\ mi = 1
        /\ verdict = (IF R.pre = << >> THEN "fork" ELSE "pre")

Done(ok, why) == /\ verdict' = (IF ok THEN "accepted" ELSE "rejected")
                 /\ PrintT(<<"@@", C.id, IF ok THEN "ok" ELSE why, mi>>)
                 /\ UNCHANGED <<tid, alt, oi, ri, left, mi>>

\* a message (or the attempt) is over: compare, then go on or stop
After(s, oi2, ri2, left2) ==
  IF s.v = "more" THEN
    /\ p' = s /\ oi' = oi2 /\ ri' = ri2 /\ left' = left2 /\ UNCHANGED <<tid, alt, mi, verdict>>
  ELSE IF s.v = "ok" THEN
    IF All(mi) /\ \A j \in Nth(mi) : OkMatch(C.outs[j][mi], s)
    THEN /\ p' = NewParser(R.o) /\ oi' = oi2 /\ ri' = ri2 /\ left' = left2 /\ mi' = mi + 1
         /\ UNCHANGED <<tid, alt, verdict>>
    ELSE p' = s /\ Done(FALSE, "spec: message complete")
  ELSE p' = s /\ Done(All(mi) /\ \A j \in Nth(mi) : ErrMatch(C.outs[j][mi], s) /\ Len(C.outs[j]) = mi,
                      "spec: error")

AtEnd == oi > Len(C.ops)
Finished ==
  /\ verdict = "run" /\ AtEnd
  /\ p' = p
  /\ IF p.ms = "START" THEN Done(\A j \in 1..Len(C.outs) : Len(C.outs[j]) = mi - 1, "spec: nothing more")
     ELSE Done(All(mi) /\ \A j \in Nth(mi) : MoreMatch(C.outs[j][mi], p) /\ Len(C.outs[j]) = mi, "spec: incomplete")

FeedRun ==
  /\ verdict = "run" /\ ~AtEnd /\ C.ops[oi].k = "D"
  /\ LET runs == C.ops[oi].d
         b == runs[ri][1]
         k == IF left > 0 THEN left ELSE runs[ri][2]
         r == Absorb(p, b, k)
         rest == k - r.u
     IN IF rest > 0 THEN After(r.p, oi, ri, rest)
        ELSE IF ri < Len(runs) THEN After(r.p, oi, ri + 1, 0)
        ELSE After(r.p, oi + 1, 1, 0)

LoseBytes ==
  /\ verdict = "run" /\ ~AtEnd /\ C.ops[oi].k = "M"
  /\ After(Lose(p, C.ops[oi].n), oi + 1, 1, 0)

FeedPrefix ==
  /\ verdict = "pre"
  /\ LET b == R.pre[ri][1]
         k == IF left > 0 THEN left ELSE R.pre[ri][2]
         r == Absorb(p, b, k)
         rest == k - r.u
         last == rest = 0 /\ ri = Len(R.pre)
     IN /\ Assert(r.p.v = "more", <<"prefix ends the message", R.pre>>)
        /\ p' = r.p /\ left' = rest
        /\ ri' = (IF last THEN 1 ELSE IF rest = 0 THEN ri + 1 ELSE ri)
        /\ verdict' = (IF last THEN "fork" ELSE "pre")
        /\ UNCHANGED <<tid, alt, oi, mi>>
Fork == /\ verdict = "fork" /\ verdict' = "run"
        /\ alt' \in 1..Len(R.alts)
        /\ UNCHANGED <<tid, p, oi, ri, left, mi>>

Next == FeedPrefix \/ Fork \/ FeedRun \/ LoseBytes \/ Finished
Spec == Init /\ [][Next]_vars
SpecInv == ParserInv(p)
=============================================================================
