----------------------------- MODULE SplitTrace -----------------------------
(***************************************************************************)
(* P01.  What the parser makes of a byte string is some function of the    *)
(* string (and the options) alone.  Each record holds every distinct       *)
(* outcome seen for one input over many divisions into reads; the function *)
(* is unknown at first, fixed by the first outcome, and every later        *)
(* outcome must agree with it.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Unknown == << >>
VARIABLES tid, alt, j, f, verdict
vars == <<tid, alt, j, f, verdict>>
C == Cases[tid].alts[alt]
Init == /\ tid \in 1..Len(Cases) /\ alt \in 1..Len(Cases[tid].alts)
        /\ j = 1 /\ f = Unknown /\ verdict = "run"
Read == /\ verdict = "run" /\ j <= Len(C.outs)
        /\ IF f = Unknown \/ f = <<C.outs[j]>>
           THEN f' = <<C.outs[j]>> /\ j' = j + 1 /\ UNCHANGED <<tid, alt, verdict>>
           ELSE /\ verdict' = "rejected" /\ UNCHANGED <<tid, alt, j, f>>
                /\ PrintT(<<"@@", C.id, "the outcome depends on the division into reads", j>>)
Accept == /\ verdict = "run" /\ j > Len(C.outs) /\ j > 1
          /\ verdict' = "accepted" /\ UNCHANGED <<tid, alt, j, f>>
          /\ PrintT(<<"@@", C.id, "ok">>)
Next == Read \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
