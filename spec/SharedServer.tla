---------------------------- MODULE SharedServer ----------------------------
(* An HTTP server whose requests are handled by several threads while other   *)
(* threads change its tables. A call is pending from its call to its return.  *)
(* In between, a request looks at the tables one after the other; what it     *)
(* finds there has to be what was there at that moment:                       *)
(*   hop    its resource is redirected as long as there is a redirection      *)
(*   need   authentication is needed if there are users and the resource is   *)
(*          restricted and not permitted                                      *)
(*   creds  it is let in if its credentials, or its session, are good         *)
(*   find   its handler is the one of the longest resource it belongs to      *)
(*   found  the handler runs; done: answered                                  *)
(* A session is known by the number of the login call that made it.           *)
EXTENDS HttpServer
VARIABLES auth, res, red, users, restrict, permit, sess, ids, calls, hist
svars == <<auth, res, red, users, restrict, permit, sess, ids, calls, hist>>
TLogin == <<47,108,111,103,105,110>>   TLogout == <<47,108,111,103,111,117,116>>
SInit(a) == auth = a /\ res = << >> /\ red = << >> /\ users = << >> /\ restrict = << >> /\ permit = << >> /\ sess = {} /\ ids = {} /\ calls = << >> /\ hist = {}
Pending == DOMAIN calls
Put(c, x) == calls' = [d \in Pending \cup {c} |-> IF d = c THEN x ELSE calls[d]]
Del(c) == calls' = [d \in Pending \ {c} |-> calls[d]]
\* e: the call, ph: how far it is, r: the resource now asked for, k: redirections, lu/ll: the users/the lists were looked at, u: who asks, rs: result [r, t]
Invoke(e) == Put(e.c, [e |-> e, ph |-> IF e.op = "q" THEN "hop" ELSE "call", r |-> Strip(e.a), k |-> 0, lu |-> FALSE, ll |-> FALSE, u |-> << >>, rs |-> <<0, 0>>, kd |-> "n"]) /\ UNCHANGED <<auth, res, red, users, restrict, permit, sess, ids, hist>>
Return(e) ==
  /\ e.c \in Pending /\ calls[e.c].ph = "done" /\ calls[e.c].rs = <<e.r, e.t>> /\ Del(e.c)
  \* a login gives a session, and one nobody had before
  /\ IF e.c \in ids THEN e.k = e.c ELSE e.k = 0
  /\ UNCHANGED <<auth, res, red, users, restrict, permit, sess, ids, hist>>
\* the handler runs, for a request that has been let in as u
Handled(e) ==
  /\ e.c \in Pending /\ calls[e.c].ph = "found" /\ calls[e.c].rs[2] = e.t
  /\ IF calls[e.c].u # << >> THEN e.u = calls[e.c].u ELSE e.u \in {<< >>, calls[e.c].e.u} \cup {x[2] : x \in {y \in hist : y[1] = calls[e.c].e.s}}
  /\ Put(e.c, [calls[e.c] EXCEPT !.ph = "done", !.rs = IF calls[e.c].kd = "t" THEN <<500, 0>> ELSE <<200, e.t>>])
  /\ UNCHANGED <<auth, res, red, users, restrict, permit, sess, ids, hist>>
Rest == Pending = {}

(* ------------------------ moments of a request ------------------------- *)
Tables == <<auth, res, red, users, restrict, permit, sess, ids, hist>>
Done(c, r, t) == Put(c, [calls[c] EXCEPT !.ph = "done", !.rs = <<r, t>>])
LetIn(c, u) == Put(c, [calls[c] EXCEPT !.ph = "find", !.u = u])
Hop(c) == LET x == calls[c] S == {i \in 1..Len(red) : red[i][1] = x.r} IN
  /\ x.ph = "hop" /\ UNCHANGED Tables
  /\ IF S # {} THEN (IF x.k = MAX_REDIRECTS THEN Done(c, 500, 0) ELSE Put(c, [x EXCEPT !.k = @ + 1, !.r = red[OneOf(S)][2]]))
     ELSE Put(c, [x EXCEPT !.ph = IF auth = "none" THEN "find" ELSE IF auth = "cookie" /\ Strip(x.r) = TLogin THEN "login" ELSE IF auth = "cookie" /\ Strip(x.r) = TLogout THEN "logout" ELSE "need"])
LookUsers(c) == LET x == calls[c] IN
  /\ x.ph = "need" /\ ~x.lu /\ UNCHANGED Tables
  /\ IF users = << >> THEN LetIn(c, << >>) ELSE Put(c, [x EXCEPT !.lu = TRUE, !.ph = IF x.ll THEN "creds" ELSE @])
LookLists(c) == LET x == calls[c] IN
  /\ x.ph = "need" /\ ~x.ll /\ UNCHANGED Tables
  /\ IF ~InTree(restrict, Strip(x.r)) \/ InTree(permit, Strip(x.r)) THEN LetIn(c, << >>) ELSE Put(c, [x EXCEPT !.ll = TRUE, !.ph = IF x.lu THEN "creds" ELSE @])
Known(u, p) == u # << >> /\ \E i \in 1..Len(users) : users[i] = [n |-> u, p |-> p]
Creds(c) == LET x == calls[c] U == IF auth = "basic" THEN (IF Known(x.e.u, x.e.p) THEN {x.e.u} ELSE {}) ELSE {y[2] : y \in {z \in sess : z[1] = x.e.s}} IN
  /\ x.ph = "creds" /\ UNCHANGED Tables
  /\ IF U = {} THEN Done(c, 401, 0) ELSE LetIn(c, OneOf(U))
Login(c) == LET x == calls[c] IN
  /\ x.ph = "login" /\ UNCHANGED <<auth, res, red, users, restrict, permit>>
  /\ IF Known(x.e.u, x.e.p) THEN Done(c, 204, 0) /\ sess' = sess \cup {<<c, x.e.u>>} /\ hist' = hist \cup {<<c, x.e.u>>} /\ ids' = ids \cup {c}
     ELSE Done(c, 401, 0) /\ UNCHANGED <<sess, ids, hist>>
Logout(c) == calls[c].ph = "logout" /\ Done(c, 204, 0) /\ sess' = {y \in sess : y[1] # calls[c].e.s} /\ UNCHANGED <<auth, res, red, users, restrict, permit, ids, hist>>
FindIt(c) == LET x == calls[c] i == Route(res, x.r) IN
  /\ x.ph = "find" /\ UNCHANGED Tables
  /\ IF i = 0 THEN Done(c, 404, 0) ELSE Put(c, [x EXCEPT !.ph = "found", !.rs = <<0, res[i].t>>, !.kd = res[i].kd])
(* --------------------------- other calls ------------------------------- *)
InList(t, n) == \E i \in 1..Len(t) : t[i] = n
Changed(c, r) == Done(c, r, 0) /\ UNCHANGED <<auth, sess, ids, hist>>
Change(c) == LET x == calls[c] e == x.e a == Strip(e.a) op == e.op IN
  /\ x.ph = "call"
  /\ \/ op = "A" /\ res' = (IF \E i \in 1..Len(res) : res[i].n = a THEN res ELSE Append(res, [n |-> a, t |-> c, kd |-> IF e.p = <<116>> THEN "t" ELSE "n"])) /\ Changed(c, 0) /\ UNCHANGED <<red, users, restrict, permit>>
     \/ op = "X" /\ res' = SelectSeq(res, LAMBDA y : y.n # a) /\ Changed(c, 0) /\ UNCHANGED <<red, users, restrict, permit>>
     \/ op = "R" /\ red' = (IF \E i \in 1..Len(red) : red[i][1] = a THEN red ELSE Append(red, <<a, Strip(e.b)>>)) /\ Changed(c, 0) /\ UNCHANGED <<res, users, restrict, permit>>
     \/ op = "U" /\ users' = (IF HasUser(users, e.u) THEN users ELSE Append(users, [n |-> e.u, p |-> e.p])) /\ Changed(c, IF HasUser(users, e.u) THEN 0 ELSE 1) /\ UNCHANGED <<res, red, restrict, permit>>
     \/ op = "V" /\ users' = SetUser(users, e.u, e.p) /\ Changed(c, IF HasUser(users, e.u) THEN 1 ELSE 0) /\ UNCHANGED <<res, red, restrict, permit>>
     \/ op = "N" /\ users' = SelectSeq(users, LAMBDA y : y.n # e.u) /\ Changed(c, IF HasUser(users, e.u) THEN 1 ELSE 0) /\ UNCHANGED <<res, red, restrict, permit>>
     \/ op = "Y" /\ restrict' = (IF InList(restrict, a) THEN restrict ELSE Append(restrict, a)) /\ Changed(c, 0) /\ UNCHANGED <<res, red, users, permit>>
     \/ op = "P" /\ permit' = (IF InList(permit, a) THEN permit ELSE Append(permit, a)) /\ Changed(c, 0) /\ UNCHANGED <<res, red, users, restrict>>
Effect == \E c \in Pending : Hop(c) \/ LookUsers(c) \/ LookLists(c) \/ Creds(c) \/ Login(c) \/ Logout(c) \/ FindIt(c) \/ Change(c)
=============================================================================
