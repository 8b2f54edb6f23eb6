----------------------------- MODULE RegistryMC ----------------------------
(* All histories of the registry over a few identifiers: objects are        *)
(* destroyed exactly once, identifiers are unique, and the longest serving  *)
(* identifier is also what a walk over the resource's own prefixes finds.   *)
EXTENDS Registry, TLC
CONSTANT MaxObj
Ids == {"", "/a", "/a/b", "/ab", "/a-b", "b"}
Resources == {"", "/", "/a", "/a/", "/a/b", "/a/b/c", "/a/bc", "/ab/c", "/a-b/c", "/a-", "/x/y", "b/a", "b"}
VARIABLES s, made, dead
vars == <<s, made, dead>>
O(op, a, v) == [op |-> op, a |-> a, v |-> v, r |-> "ok"]
Acts == {O("add", <<i>>, <<made + 1>>) : i \in Ids} \cup {O("load", <<i, "A">>, <<made + 1>>) : i \in Ids}
        \cup {O("rem", <<i>>, << >>) : i \in Ids} \cup {O("rep", <<i>>, <<made + 1>>) : i \in Ids} \cup {O("clr", <<"">>, << >>)}
Init == s = << >> /\ made = 0 /\ dead = << >>
Next == /\ made < MaxObj
        /\ \E o \in Acts : LET e == Call(s, o)  new == (o.op \in {"add", "rep"} \/ (o.op = "load" /\ e.r = "ok")) IN
             /\ s' = e.s /\ made' = made + (IF new THEN 1 ELSE 0)
             /\ dead' = dead \o (LET RECURSIVE L(_) L(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x[1]>> \o L(S \ {x}) IN L(e.dead))
Spec == Init /\ [][Next]_vars
Unique == \A i, j \in 1..Len(s) : s[i].id = s[j].id => i = j
OnceEach == \A k \in 1..made : Cardinality({i \in 1..Len(dead) : dead[i] = k}) + Cardinality({i \in 1..Len(s) : s[i].obj = k}) = 1
\* walk: the resource itself, then each shorter part followed by a slash
RECURSIVE Walk(_,_,_)
Walk(t, res, k) == IF At(t, Pre(res, k)) # 0 /\ (k = Len(res) \/ SubSeq(res, k+1, k+1) = "/") THEN t[At(t, Pre(res, k))].obj ELSE IF k = 0 THEN 0 ELSE Walk(t, res, k-1)
Longest == \A res \in Resources : Best(s, res) = Walk(s, res, Len(res))
=============================================================================
