------------------------------- MODULE AuthMC ------------------------------
(* Sessions and passwords: clients log in and out and ask for a restricted   *)
(* resource with whatever cookies and passwords they have seen, users come   *)
(* and go, time passes.  The server serves exactly when Identity says so.    *)
EXTENDS HttpServer
CONSTANTS Steps
Users == { <<97>>, <<98>> }  Passes == { <<112>>, <<113>> }
Ticks == { 1800, 3601 }
VARIABLES s, truth, seen, next, k, served
\* truth: who may know what: cookie -> [u, t, valid], passwords of the users now
vars == <<s, truth, seen, next, k, served>>
Cookie(j) == <<48 + j>>
Q(c) == [h |-> << <<M!NCookie, NSession \o <<61>> \o c>> >>]
Init == s = [NewServer("cookie", << <<108>>, <<111>>, << >> >>, 1) EXCEPT !.restrict = << << >> >>] /\ truth = << >> /\ seen = {} /\ next = 1 /\ k = 0 /\ served = {}
Do(r) == ~Has(r) /\ s' = r.s
Op(o) == Act(s, o)
AddUser == \E u \in Users, p \in Passes : Do(Op([op |-> "U", c |-> 0, k |-> 97, a |-> u, b |-> p, n |-> 0, calls |-> << >>, out |-> << >>])) /\ served' = {} /\ UNCHANGED <<truth, seen, next>>
DelUser == \E u \in Users : Do(Op([op |-> "U", c |-> 0, k |-> 114, a |-> u, b |-> << >>, n |-> 0, calls |-> << >>, out |-> << >>])) /\ truth' = SelectSeq(truth, LAMBDA e : e.u # u) /\ served' = {} /\ UNCHANGED <<seen, next>>
Tick == \E d \in Ticks : s' = [s EXCEPT !.now = @ + d] /\ served' = {} /\ UNCHANGED <<truth, seen, next>>
Login == \E u \in Users, p \in Passes : Matches(s, u, p)
   /\ s' = [s EXCEPT !.sess = Append(@, [c |-> Cookie(next), u |-> u, t |-> s.now, stale |-> FALSE])]
   /\ truth' = Append(truth, [c |-> Cookie(next), u |-> u, t |-> s.now]) /\ seen' = seen \cup {Cookie(next)} /\ next' = next + 1 /\ served' = {}
Logout == \E c \in seen : s' = [s EXCEPT !.sess = SelectSeq(@, LAMBDA e : e.c # c)] /\ truth' = SelectSeq(truth, LAMBDA e : e.c # c) /\ served' = {} /\ UNCHANGED <<seen, next>>
Ask == \E c \in seen \cup {<<57>>} :
   LET id == Identity(s, Q(c)) IN
   /\ id.must \/ ~id.may                  \* what the server may decide freely is left out
   /\ served' = (IF id.must /\ Needed(s, <<47>>) THEN {<<c, id.u, s.now>>} ELSE {})
   /\ s' = (IF id.must THEN [s EXCEPT !.sess = [i \in 1..Len(@) |-> IF @[i].c = c THEN [@[i] EXCEPT !.t = s.now] ELSE @[i]]] ELSE s)
   /\ truth' = (IF id.must THEN [i \in 1..Len(truth) |-> IF truth[i].c = c THEN [truth[i] EXCEPT !.t = s.now] ELSE truth[i]] ELSE truth)
   /\ UNCHANGED <<seen, next>>
Next == k < Steps /\ k' = k + 1 /\ (AddUser \/ DelUser \/ Tick \/ Login \/ Logout \/ Ask)
Spec == Init /\ [][Next]_vars
\* served only to someone who logged in, has not logged out, was not removed, and did not stay away too long
Entitled == \A e \in served : \E i \in 1..Len(truth) : truth[i].c = e[1] /\ truth[i].u = e[2] /\ HasUser(s.users, e[2])
\* a session in use is honoured
Honoured == \A i \in 1..Len(truth) : (s.now - truth[i].t <= SESSION_IDLE) => Identity(s, Q(truth[i].c)).must /\ Identity(s, Q(truth[i].c)).u = truth[i].u
Ended == \A c \in seen : (~\E i \in 1..Len(truth) : truth[i].c = c) => ~Identity(s, Q(c)).must
Forged == ~Identity(s, Q(<<57>>)).may /\ ~Identity(s, Q(<< >>)).may
=============================================================================
