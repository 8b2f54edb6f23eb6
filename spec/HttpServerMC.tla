--------------------------- MODULE HttpServerMC ----------------------------
(* Routing and redirection over every small table.                          *)
EXTENDS HttpServer
CONSTANTS Depth
Names == { << >>, <<47>>, <<47,97>>, <<47,97,47>>, <<47,97,98>>, <<47,97,47,98>>, <<47,98>> }
Asks  == Names \cup { <<47,97,47,98,47,99>>, <<47,97,98,99>>, <<47,99>>, <<47,97,47,47>>, <<97>> }
VARIABLES res, red, k
vars == <<res, red, k>>
Init == res = << >> /\ red = << >> /\ k = 0
Known(r) == \E i \in 1..Len(res) : res[i].n = Strip(r)
Add == \E r \in Names : ~Known(r) /\ res' = Append(res, [n |-> Strip(r), t |-> <<k>>, k |-> 110]) /\ UNCHANGED red
Del == \E r \in Names : Known(r) /\ res' = SelectSeq(res, LAMBDA e : e.n # Strip(r)) /\ UNCHANGED red
Redir == \E a \in Names, b \in Names : Strip(a) # Strip(b) /\ (\A i \in 1..Len(red) : red[i][1] # Strip(a)) /\ red' = Append(red, <<Strip(a), Strip(b)>>) /\ UNCHANGED res
Next == k < Depth /\ k' = k + 1 /\ (Add \/ Del \/ Redir)
Spec == Init /\ [][Next]_vars
Parent(n, r) == n = r \/ (Len(n) < Len(r) /\ SubSeq(r, 1, Len(n)) = n /\ r[Len(n) + 1] = 47)
Routed == \A q \in Asks :
  LET r == Strip(q)  i == Route(res, r) IN
  /\ (i = 0) = (\A j \in 1..Len(res) : ~Parent(res[j].n, r))
  /\ i # 0 => Parent(res[i].n, r) /\ \A j \in 1..Len(res) : j # i /\ Parent(res[j].n, r) => Parent(res[j].n, res[i].n) /\ res[j].n # res[i].n
RECURSIVE Chain(_,_)
Chain(r, m) == IF m = 0 THEN r ELSE LET S == {i \in 1..Len(red) : red[i][1] = r} IN IF S = {} THEN <<0>> ELSE Chain(red[CHOOSE i \in S : TRUE][2], m - 1)
Moves(r) == \E i \in 1..Len(red) : red[i][1] = r
Redirected == \A q \in Asks :
  LET f == Follow(red, Strip(q), 0) IN
  /\ f.k <= MAX_REDIRECTS
  /\ f.ok => ~Moves(f.r) /\ Chain(Strip(q), f.k) = f.r
  /\ ~f.ok => \E i, j \in 0..MAX_REDIRECTS : i < j /\ Chain(Strip(q), i) = Chain(Strip(q), j)   \* few redirects: only a loop is too long
=============================================================================
