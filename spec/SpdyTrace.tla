----------------------------- MODULE SpdyTrace -----------------------------
(* Histories of the real decoder: packets, each decoded call after call.     *)
EXTENDS Spdy, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, verdict
vars == <<n, verdict>>
\* table of what the peer's blocks say: <<direction, number, block, text or marker>>
InflateIn(tab, d, k, c) ==
  LET S == {i \in 1..Len(tab) : tab[i].d = d /\ tab[i].k = k /\ tab[i].c = c}
  IN IF S = {} THEN Either ELSE tab[CHOOSE i \in S : TRUE].t
HeadersOk(h, want) ==
  /\ \A i \in 1..Len(h) : \E j \in 1..Len(want) : want[j] = h[i]
  /\ \A j \in 1..Len(want) : \E i \in 1..Len(h) : h[i][1] = want[j][1]
D(a, b) == a = -1 \/ a = b
Fits(o, c) ==
  IF o.rc = "any" THEN (IF c.rc = "f" THEN c.ec \in Errors ELSE c.ec = 0)
  ELSE IF o.rc # c.rc THEN FALSE
  ELSE IF o.rc = "f" THEN c.ec \in o.ec
  ELSE /\ c.ec = 0
       /\ D(o.left, c.left) /\ D(o.rp, c.rp) /\ D(o.cp, c.cp)
       /\ o.info.type = c.type /\ o.info.stream = c.stream /\ o.info.off = c.off
       /\ o.info.size = c.size /\ o.info.last = c.last
       /\ HeadersOk(c.h, o.info.h)
Static(p, c) ==
  /\ Len(p) >= 1 => c.ft = FrameType(p)
  /\ Len(p) >= 4 => c.ctl = IsControl12(p)
  /\ Len(p) >= 12 => c.sid = U31(p, 9)
Num(i) == ToString(i)
\* calls of one packet from call k on, at position at of it
RECURSIVE Walk(_,_,_,_,_,_)
Walk(tab, z, pkts, a, k, at) ==
  IF a > Len(pkts) THEN "ok"
  ELSE LET calls == pkts[a].calls  whole == pkts[a].b IN
    IF k > Len(calls) THEN Walk(tab, z, pkts, a + 1, 1, 0)
    ELSE LET p == SubSeq(whole, at + 1, Len(whole))
             c == calls[k]
             S == {o \in Out(z, p, LAMBDA d, i, b : InflateIn(tab, d, i, b)) : Fits(o, c)}
         IN IF ~Static(p, c) THEN "packet " \o Num(a) \o " at " \o Num(at) \o ": frame type, control frame or stream id"
            ELSE IF S = {} THEN "packet " \o Num(a) \o " at " \o Num(at) \o ": expected " \o ToString(Out(z, p, LAMBDA d, i, b : InflateIn(tab, d, i, b)))
            ELSE LET o == CHOOSE o \in S : TRUE IN
                 IF k = Len(calls) THEN
                    (IF o.rc = "i" /\ o.rp > 0 THEN "packet " \o Num(a) \o ": decoding stopped early" ELSE Walk(tab, o.z, pkts, a + 1, 1, 0))
                 ELSE IF c.rc # "i" \/ c.rp <= 0 \/ c.rp + at > Len(whole) THEN "packet " \o Num(a) \o ": decoding went on"
                 ELSE Walk(tab, o.z, pkts, a, k + 1, at + c.rp)
Judge(r) == Walk(r.tab, New, r.pkts, 1, 1, 0)
Init == n \in 1..Len(Log) /\ verdict = "?"
Decide == /\ verdict = "?"
          /\ verdict' = Judge(Log[n])
          /\ PrintT(<<"@@", Log[n].id, verdict'>>)
          /\ UNCHANGED n
Spec == Init /\ [][Decide]_vars
=============================================================================
