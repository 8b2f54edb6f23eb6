------------------------------ MODULE UsersMC ------------------------------
(* All histories over two names and three passwords with abstract digests;  *)
(* the property stated on the history rather than on the registry's state.  *)
EXTENDS Users
CONSTANTS MaxObjs
Names == {<<97>>, <<98>>}
Pws == {<<1>>, <<2>>, << >>}
H40(x) == [i \in 1..40 |-> 48 + x]
H64(x) == [i \in 1..64 |-> 48 + x]
Dig == << << <<1>>, H40(1), H64(1) >>, << <<2>>, H40(2), H64(2) >>, << << >>, H40(3), H64(3) >> >>
Digests == {H40(1), H64(1), H64(3), H40(9), <<49>>, [H64(1) EXCEPT ![64] = 103]}
VARIABLES s, last, ghost
\* ghost[nm]: the set of passwords that must open nm now ("absent": not a user)
vars == <<s, last, ghost>>
O(op, nm, p) == [op |-> op, n |-> nm, p |-> p]
Acts == {O(op, nm, p) : op \in {"add", "upd", "getp"}, nm \in Names, p \in Pws} \cup {O(op, nm, p) : op \in {"addh", "updh"}, nm \in Names, p \in Digests}
        \cup {O("rem", nm, << >>) : nm \in Names} \cup {O("empty", << >>, << >>)}
Absent == {<<0, 0>>}
DigOpens(d) == {p \in Pws : \E i \in 1..3 : Dig[i][1] = p /\ d \in {Dig[i][2], Dig[i][3]}}
Init == s = Start /\ last = [o |-> O("empty", << >>, << >>), r |-> "t"] /\ ghost = [x \in Names |-> Absent]
Next == \E o \in Acts : LET e == Call(Dig, s, o) IN
          /\ Len(e.s.objs) <= MaxObjs
          /\ s' = e.s /\ last' = [o |-> o, r |-> e.r]
          /\ ghost' = CASE e.r # "t" -> ghost
                        [] o.op \in {"add", "upd"} -> [ghost EXCEPT ![o.n] = {o.p}]
                        [] o.op \in {"addh", "updh"} -> [ghost EXCEPT ![o.n] = DigOpens(o.p)]
                        [] o.op = "rem" -> [ghost EXCEPT ![o.n] = Absent]
                        [] OTHER -> ghost
Spec == Init /\ [][Next]_vars
Exact == \A nm \in Names, p \in Pws : (Call(Dig, s, O("getp", nm, p)).r = "t") = (p \in ghost[nm])
Exists == \A nm \in Names : (Find(s, nm) # 0) = (ghost[nm] # Absent)
FailChangesNothing == [][last'.r # "t" => s'.map = s.map /\ s'.objs = s.objs]_vars
AddFails == [][last'.o.op \in {"add", "addh"} => ((last'.r = "f") = (ghost[last'.o.n] # Absent))]_vars
Malformed == [][last'.o.op \in {"addh", "updh"} /\ last'.r = "t" => Len(last'.o.p) \in {40, 64} /\ \A i \in 1..Len(last'.o.p) : last'.o.p[i] # 103]_vars
=============================================================================
