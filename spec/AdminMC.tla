------------------------------ MODULE AdminMC ------------------------------
(* All interleavings of a few threads taking and giving back the rights, for *)
(* every initial combination of ids.                                         *)
EXTENDS Admin
CONSTANTS Threads, Uses
VARIABLES left, before
Ids == {Root, <<49>>, <<50>>}
Init == /\ \E r, e, s \in Ids : AInit(r, e, s, Root, {Root}) /\ before = e
        /\ left = [t \in Threads |-> Uses]
Obj(t) == {x \in objs : x.o = t}
Busy(t) == \E p \in pend : p.c = t
Next == \/ \E t \in Threads : ~Busy(t) /\ Obj(t) = {} /\ left[t] > 0 /\ Invoke(t, "M", t, << >>) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED before
        \/ \E t \in Threads, op \in {"L", "K"} : ~Busy(t) /\ Obj(t) # {} /\ Invoke(t, op, t, << >>) /\ UNCHANGED <<left, before>>
        \/ Effect(<< >>, << >>) /\ UNCHANGED <<left, before>>
        \/ \E t \in Threads : Return(t, << >>) /\ UNCHANGED <<left, before>>
Spec == Init /\ [][Next]_<<avars, left, before>>
\* with nobody holding the rights the process is who it was; with a holder it is root
GivenBack == holder = 0 => euid = before
Active == holder # 0 => euid = Root
Rest == ~ENABLED Effect(<< >>, << >>) => \A p \in pend : p.ph = "called" => (p.op = "M" /\ holder # 0)
=============================================================================
