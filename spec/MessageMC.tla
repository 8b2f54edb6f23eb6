----------------------------- MODULE MessageMC -----------------------------
(* All histories of two messages over a tiny universe; the laws of the       *)
(* dictionaries, stated independently of how Message.tla defines them.       *)
EXTENDS Message
CONSTANTS NameBytes, MaxSize
Names == {<<x>> : x \in NameBytes}
Values == {<<49>>, <<50, 50>>}
VARIABLES ms, last
vars == <<ms, last>>
O(op, a, b) == [op |-> op, a |-> a, b |-> b, n |-> 0, r |-> << >>, x |-> FALSE]
Acts == {O(op, a, b) : op \in {"ah", "ch", "ac", "cc"}, a \in Names, b \in Values} \cup {O(op, a, << >>) : op \in {"dh", "dc"}, a \in Names}
        \cup {O("sb", v, << >>) : v \in Values} \cup {O("cb", << >>, << >>), O("clear", << >>, << >>)}
Init == ms = <<New(FALSE), New(FALSE)>> /\ last = <<1, O("clear", << >>, << >>)>>
Small(m) == Len(m.h) <= MaxSize /\ Len(m.c) <= MaxSize
Call == \E s \in 1..2, o \in Acts : /\ ms' = [ms EXCEPT ![s] = Op(@, o).m] /\ Small(ms'[s]) /\ last' = <<s, o>>
Copy == \E s \in 1..2 : ms' = [ms EXCEPT ![s] = ms[3-s]] /\ last' = <<s, O("copy", << >>, << >>)>>
Next == Call \/ Copy
Spec == Init /\ [][Next]_vars
Cnt(d, nm, v) == Cardinality({i \in 1..Len(d) : d[i][1] = SLower(nm) /\ d[i][2] = v})
\* the other message never changes
Independent == [][\A s \in 1..2 : last'[1] = 3 - s => ms'[s] = ms[s]]_vars
\* adding keeps all earlier values, changing leaves one, deleting none; other names are not touched
Laws == [][LET s == last'[1]  o == last'[2]  A == ms[s].h  B == ms'[s].h IN
  /\ o.op = "ah" => \A nm \in Names, v \in Values : Cnt(B, nm, v) = Cnt(A, nm, v) + (IF SLower(nm) = SLower(o.a) /\ v = o.b THEN 1 ELSE 0)
  /\ o.op = "ch" => \A nm \in Names, v \in Values : Cnt(B, nm, v) = IF SLower(nm) = SLower(o.a) THEN (IF v = o.b THEN 1 ELSE 0) ELSE Cnt(A, nm, v)
  /\ o.op = "dh" => \A nm \in Names, v \in Values : Cnt(B, nm, v) = IF SLower(nm) = SLower(o.a) THEN 0 ELSE Cnt(A, nm, v)
  /\ o.op \in {"ac", "cc", "dc", "sb"} => B = A]_vars
Reads == \A s \in 1..2, nm \in Names : DHas(ms[s].h, nm) = (DCount(ms[s].h, nm) > 0)
LengthInv == \A s \in 1..2 : ms[s].cl = DigitsOf(Len(ms[s].body))
=============================================================================
