------------------------------ MODULE SharedMC ------------------------------
(* The moments of SharedServer.tla against what a client may count on, whose  *)
(* terms are calls and returns only: a handler that answers was there between *)
(* call and return; a session serves from the return of its login to the call *)
(* of its logout and never after that returned; what was restricted before    *)
(* the call is served to users only.  Designs: sound; cache (a route once     *)
(* found is used again), late (logout answers before the session is gone),    *)
(* early (login answers before the session is there), open (while the lists   *)
(* change nothing is restricted).                                             *)
EXTENDS SharedServer
CONSTANTS Most, Pend, Asks, Design
VARIABLES k, facts, gone, lag, old
mvars == <<svars, k, facts, gone, lag, old>>
NA == <<47, 97>>   NAB == <<47, 97, 47, 98>>   U1 == <<117>>   P1 == <<112>>
E(op, a, s, u) == [c |-> k + 1, op |-> op, a |-> a, b |-> << >>, s |-> s, u |-> u, p |-> IF u = << >> THEN << >> ELSE P1]
Known1 == {0} \cup {y[1] : y \in {z \in hist : z[1] \notin Pending}}
Calls == UNION {
  IF "q" \in Asks THEN {E("q", r, s, << >>) : r \in {NA, NAB}, s \in Known1} ELSE {},
  IF "login" \in Asks THEN {E("q", TLogin, 0, U1)} \cup {E("q", TLogout, s, << >>) : s \in Known1 \ {0}} ELSE {},
  IF "res" \in Asks THEN {E("A", r, 0, << >>) : r \in {NA, NAB}} \cup {E("X", r, 0, << >>) : r \in {NA, NAB}} ELSE {},
  IF "lists" \in Asks THEN {E("Y", r, 0, << >>) : r \in {NA, NAB}} \cup {E("U", << >>, 0, U1)} ELSE {} }
Init == SInit("cookie") /\ k = 0 /\ facts = << >> /\ gone = {} /\ lag = {} /\ old = 0
\* what is so at a moment
Names == {NA, NAB}
Tags == {res[i].t : i \in 1..Len(res)}
Bare == {r \in Names : Route(res, r) = 0}
Call == /\ k < Most /\ Cardinality(Pending) < Pend
        /\ \E e \in Calls : Invoke(e) /\ facts' = [d \in Pending \cup {k + 1} |-> IF d = k + 1 THEN
               [tags |-> Tags, bare |-> Bare, dead |-> gone, kept |-> users # << >> /\ e.a \in Names /\ InTree(restrict, e.a)] ELSE facts[d]]
        /\ k' = k + 1 /\ UNCHANGED <<gone, lag, old>>
Noted == facts' = [d \in DOMAIN facts |-> [facts[d] EXCEPT !.tags = @ \cup {res'[i].t : i \in 1..Len(res')}, !.bare = @ \cup {r \in Names : Route(res', r) = 0}]]
LatePut(c) == Design = "early" /\ calls[c].ph = "login" /\ Known(calls[c].e.u, calls[c].e.p) /\ Done(c, 204, 0) /\ ids' = ids \cup {c} /\ hist' = hist \cup {<<c, calls[c].e.u>>} /\ lag' = lag \cup {<<"in", c, calls[c].e.u>>} /\ UNCHANGED <<auth, res, red, users, restrict, permit, sess>>
LateDel(c) == Design = "late" /\ calls[c].ph = "logout" /\ Done(c, 204, 0) /\ lag' = lag \cup {<<"out", calls[c].e.s, << >>>>} /\ UNCHANGED Tables
OpenUp(c) == Design = "open" /\ calls[c].ph = "need" /\ (\E d \in Pending : calls[d].e.op = "Y" /\ calls[d].ph = "call") /\ LetIn(c, << >>) /\ UNCHANGED Tables /\ UNCHANGED lag
FromCache(c) == Design = "cache" /\ calls[c].ph = "find" /\ old # 0 /\ Put(c, [calls[c] EXCEPT !.ph = "found", !.rs = <<0, old>>]) /\ UNCHANGED Tables /\ UNCHANGED lag
Moment == \E c \in Pending :
  /\ \/ Hop(c) \/ LookUsers(c) \/ LookLists(c) \/ Creds(c) \/ (Design # "early" /\ Login(c)) \/ (Design # "late" /\ Logout(c)) \/ FindIt(c) \/ Change(c)
  /\ UNCHANGED lag
Odd == \E c \in Pending : LatePut(c) \/ LateDel(c) \/ OpenUp(c) \/ FromCache(c)
CatchUp == \E x \in lag : lag' = lag \ {x} /\ sess' = (IF x[1] = "in" THEN sess \cup {<<x[2], x[3]>>} ELSE {y \in sess : y[1] # x[2]}) /\ UNCHANGED <<auth, res, red, users, restrict, permit, ids, calls, hist>>
Runs1 == \E c \in Pending : /\ calls[c].ph = "found" /\ old' = calls[c].rs[2] /\ Handled([c |-> c, t |-> calls[c].rs[2], u |-> calls[c].u]) /\ UNCHANGED <<k, facts, gone, lag>>
Ends == \E c \in Pending : /\ calls[c].ph = "done" /\ Return([c |-> c, r |-> calls[c].rs[1], t |-> calls[c].rs[2], k |-> IF c \in ids THEN c ELSE 0])
                          /\ gone' = (IF calls[c].e.a = TLogout THEN gone \cup {calls[c].e.s} ELSE gone)
                          /\ facts' = [d \in Pending \ {c} |-> facts[d]] /\ UNCHANGED <<k, lag, old>>
Next == Call \/ ((Moment \/ Odd \/ CatchUp) /\ Noted /\ UNCHANGED <<k, gone, old>>) \/ Runs1 \/ Ends
Spec == Init /\ [][Next]_mvars
(* ------------------------------- laws ---------------------------------- *)
Requests == {c \in Pending : calls[c].e.op = "q" /\ calls[c].e.a \in Names}
Present == \A c \in Requests : calls[c].ph \in {"found", "done"} /\ calls[c].rs[2] # 0 => calls[c].rs[2] \in facts[c].tags
Absent == \A c \in Requests : calls[c].ph = "done" /\ calls[c].rs[1] = 404 => calls[c].e.a \in facts[c].bare
Refused == \A c \in Requests : calls[c].e.s \in facts[c].dead => calls[c].u = << >>
LoggedOut(s) == s \in gone \/ \E d \in Pending : calls[d].e.a = TLogout /\ calls[d].e.s = s
Entitled == \A c \in Requests : calls[c].ph = "done" /\ calls[c].rs[1] = 401 => calls[c].e.s = 0 \/ LoggedOut(calls[c].e.s)
Guarded == \A c \in Requests : facts[c].kept /\ calls[c].ph \in {"found", "done"} /\ calls[c].rs[1] \notin {401} => calls[c].u # << >>
=============================================================================
