--------------------------- MODULE PluginServer -----------------------------
(* A server whose services come from plug-ins and configuration files: which *)
(* services there are, what they were told, who may ask for them, and their  *)
(* life from creation to destruction.                                        *)
EXTENDS HttpServer
F == INSTANCE Conf
CPath == <<112,97,116,104>>  CAuth == <<97,117,116,104>>  CRestrict == <<114,101,115,116,114,105,99,116>>
CService == <<115,101,114,118,105,99,101>>  COption == <<111,112,116,105,111,110>>  CUser == <<117,115,101,114>>
VC == {CPath, CAuth, CRestrict}  RC == {CService, COption, CUser}
TBasic == <<98,97,115,105,99>>  TCookie == <<99,111,111,107,105,101>>  TBadOption == <<98,97,100>>
TSvc == <<83,118,99>>
\* the directories of the harness (@ is a scratch directory) and the files in them
TP1 == <<112,49,46,115,111>>  TP2 == <<112,50,46,115,111>>  TBoth == <<98,111,116,104,46,115,111>>  TOnly == <<111,110,108,121>>  TSo == <<46,115,111>>
D1 == <<64,49>>  D2 == <<64,50,32,120>>
FilesOf(d) == IF d = D1 THEN {TP1, TBoth, TOnly} ELSE IF d = D2 THEN {TP2, TBoth} ELSE {}
NewPlugged == [svcs |-> << >>, dirs |-> << >>, auth |-> "none", users |-> << >>, restrict |-> << >>, who |-> [in |-> FALSE, u |-> << >>], on |-> FALSE, torn |-> FALSE]
At(s, r) == {i \in 1..Len(s.svcs) : s.svcs[i].r = r}
\* n = 0: made by this step
Load(s, r, k, loaded) == [s EXCEPT !.svcs = Append(@, [n |-> 0, k |-> k, r |-> Strip(r), o |-> << >>, b |-> 0, e |-> 0, loaded |-> loaded])]
KindOf(v) == IF Len(v) = 4 /\ SubSeq(v, 1, 3) = TSvc THEN (IF v[4] = 65 THEN "A" ELSE IF v[4] = 66 THEN "B" ELSE "none") ELSE "none"
SetOption(s, r, a, b) == [s EXCEPT !.svcs = [i \in 1..Len(@) |-> IF @[i].r = Strip(r) THEN [@[i] EXCEPT !.o = Append(@, <<a, b>>)] ELSE @[i]]]
CanLoad(s, r, k) == k # "none" /\ At(s, Strip(r)) = {}
CanSet(s, r, a) == At(s, Strip(r)) # {} /\ a # TBadOption

(* ---------------------------- configurations --------------------------- *)
\* the state after commands i.. of cmds; new: the authentication defined so far; or Bad
RECURSIVE Carry(_,_,_,_)
Carry(s, new, cmds, i) ==
  IF i > Len(cmds) THEN IF new.auth = "none" THEN s ELSE [s EXCEPT !.auth = new.auth, !.users = new.users, !.restrict = new.restrict, !.who = [in |-> FALSE, u |-> << >>]]
  ELSE LET x == cmds[i]  p == FindFrom(<<EQ>>, x.v, 1) IN
    CASE x.c = CPath -> Carry(IF FilesOf(Strip(x.v)) # {} THEN [s EXCEPT !.dirs = Append(@, Strip(x.v))] ELSE s, new, cmds, i + 1)
      [] x.c = CAuth -> IF new.auth # "none" \/ x.v \notin {TBasic, TCookie} THEN Bad("auth")
                        ELSE Carry(s, [new EXCEPT !.auth = IF x.v = TBasic THEN "basic" ELSE "cookie"], cmds, i + 1)
      [] x.c = CRestrict -> IF new.auth = "none" THEN Bad("restrict") ELSE Carry(s, [new EXCEPT !.restrict = Append(@, Strip(x.v))], cmds, i + 1)
      [] x.c = CUser -> IF new.auth = "none" THEN Bad("user") ELSE Carry(s, IF HasUser(new.users, x.w) THEN new ELSE [new EXCEPT !.users = Append(@, [n |-> x.w, p |-> x.v])], cmds, i + 1)
      [] x.c = CService -> IF ~CanLoad(s, x.w, KindOf(x.v)) THEN Bad("service") ELSE Carry(Load(s, x.w, KindOf(x.v), TRUE), new, cmds, i + 1)
      [] x.c = COption -> IF p = 0 \/ ~CanSet(s, x.w, SubSeq(x.v, 1, p - 1)) THEN Bad("option") ELSE Carry(SetOption(s, x.w, SubSeq(x.v, 1, p - 1), SubSeq(x.v, p + 1, Len(x.v))), new, cmds, i + 1)
Configured(s, text) == LET c == F!Commands(text, VC, RC) IN IF ~c.ok THEN Bad("line") ELSE Carry(s, [auth |-> "none", users |-> << >>, restrict |-> << >>], c.cmds, 1)

(* ------------------------------ requests ------------------------------- *)
Needs(s, r) == s.auth # "none" /\ s.users # << >> /\ InTree(s.restrict, Strip(r))
\* what a Basic header says: up to the first colon is the name
Named(u, p) == LET b == u \o <<COLON>> \o p  c == FindFrom(<<COLON>>, b, 1) IN [n |-> SubSeq(b, 1, c - 1), p |-> SubSeq(b, c + 1, Len(b))]
Valid(s, how, u, p) == \/ s.auth = "basic" /\ how = 98 /\ Named(u, p).n # << >> /\ Matches(s, Named(u, p).n, Named(u, p).p)
                       \/ s.auth = "cookie" /\ how = 99 /\ s.who.in
TSvcOut == <<115,118,99,32>>
Wanted(s, r) == LET k == Route([i \in 1..Len(s.svcs) |-> [n |-> s.svcs[i].r]], Strip(r)) IN
  IF k = 0 THEN [code |-> 404, body |-> << >>]
  ELSE [code |-> 200, body |-> TSvcOut \o M!DigitsOf(s.svcs[k].n) \o <<SP>> \o SubSeq(r, Len(s.svcs[k].r) + 2, Len(r))]
Found(s, name) ==
  LET Tries == << name, name \o TSo >>
      S == {<<d, t>> \in (1..Len(s.dirs)) \X (1..2) : Tries[t] \in FilesOf(s.dirs[d])}
      best == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
  IN IF S = {} THEN << >> ELSE s.dirs[best[1]] \o <<SLASH>> \o Tries[best[2]]

(* ---------------------------- one observed step ------------------------ *)
\* what is left of the services: as in s, those made just now with the number observed
Fits(s, live) == /\ Len(live) = Len(s.svcs)
                 /\ \A i \in 1..Len(live) : LET x == live[i] y == s.svcs[i] IN
                       /\ x.k = y.k /\ x.r = y.r /\ x.o = y.o /\ x.b = y.b /\ x.e = y.e
                       /\ IF y.n = 0 THEN \A j \in 1..Len(live) : j # i => live[j].n # x.n ELSE x.n = y.n
Adopt(s, live) == [s EXCEPT !.svcs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.n = live[i].n]]]
\* how services that were there ended: [n, how, starts, stops]
Ended(svcs, gone) == {g \in {gone[i] : i \in 1..Len(gone)} : \E j \in 1..Len(svcs) : svcs[j].n = g[1]}
Destroyed(svcs) == {<<svcs[i].n, IF svcs[i].loaded THEN "destroy" ELSE "delete", svcs[i].b, svcs[i].e>> : i \in 1..Len(svcs)}
Stopped(s) == IF s.on THEN [s EXCEPT !.on = FALSE, !.svcs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.e = @ + 1]]] ELSE s
Then(s, o, r) ==      \* the state is s, the result of the call should be r
  IF o.r # r THEN Bad("result " \o o.r)
  ELSE IF o.on # s.on THEN Bad("listening or not")
  ELSE IF ~s.torn /\ ~Fits(s, o.live) THEN Bad("services")
  ELSE IF ~s.torn /\ Ended(s.svcs, o.gone) # {} THEN Bad("service destroyed")
  ELSE IF \E i \in 1..Len(o.gone) : o.gone[i][2] = "foreign" THEN Bad("destroyed by another plug-in")
  ELSE [s |-> IF s.torn THEN s ELSE Adopt(s, o.live)]
Kept(s, o) == \A i \in 1..Len(s.svcs) : \E j \in 1..Len(o.live) : o.live[j].n = s.svcs[i].n /\ o.live[j].k = s.svcs[i].k /\ o.live[j].r = s.svcs[i].r
PAct(s, o) ==
  CASE o.op = "L" /\ s.torn -> [s |-> IF o.r = "ok" THEN [s EXCEPT !.auth = "unknown"] ELSE s]
    [] o.op = "L" -> LET c == Configured(s, o.a[1]) IN
         IF Has(c) THEN (IF ~Kept(s, o) THEN Bad("a refused configuration removed a service") ELSE Then([s EXCEPT !.torn = TRUE], o, "error")) ELSE Then(c, o, "ok")
    [] o.op = "M" -> Then(s, o, "error")
    [] s.torn /\ o.op \in {"A", "V", "O"} -> [s |-> s]
    [] o.op \in {"A", "V"} -> LET k == IF o.op = "A" THEN (IF o.a[2] = <<65>> THEN "A" ELSE "B") ELSE KindOf(TSvc \o o.a[2])
                              IN IF CanLoad(s, o.a[1], k) THEN Then(Load(s, o.a[1], k, o.op = "V"), o, "ok") ELSE Then(s, o, "error")
    [] o.op = "O" -> IF CanSet(s, o.a[1], o.a[2]) THEN Then(SetOption(s, o.a[1], o.a[2], o.a[3]), o, "ok") ELSE Then(s, o, "error")
    [] o.op = "B" -> Then(IF s.on THEN s ELSE [s EXCEPT !.on = TRUE, !.svcs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.b = @ + 1]]], o, "ok")
    [] o.op = "E" -> Then(Stopped(s), o, "ok")
    [] o.op \in {"X", "Z"} -> LET t == Stopped(s) IN
         IF s.torn THEN (IF o.live # << >> THEN Bad("services left") ELSE [s |-> [s EXCEPT !.on = FALSE, !.auth = "unknown"]])
         ELSE IF Ended(s.svcs, o.gone) # Destroyed(t.svcs) \/ Len(o.gone) # Len(t.svcs) THEN Bad("services not destroyed properly")
         ELSE Then([t EXCEPT !.svcs = << >>], o, "ok")
    [] o.op = "P" -> IF ~s.on THEN Then(s, o, "off") ELSE IF s.auth = "unknown" THEN [s |-> s]
         ELSE LET ok == ~Needs(s, o.a[1]) \/ Valid(s, o.a[2][1], o.a[3], o.a[4])  w == Wanted(s, o.a[1]) IN
              IF ~ok /\ o.code # 401 THEN Bad("restricted resource not refused")
              ELSE IF ok /\ o.code = 401 THEN Bad("credentials asked for")
              ELSE IF s.torn THEN [s |-> s]
              ELSE IF ok /\ (o.code # w.code \/ o.body # w.body) THEN Bad("wrong answer")
              ELSE Then(s, o, "ok")
    [] o.op = "K" -> IF ~s.on THEN Then(s, o, "off") ELSE IF s.auth = "unknown" THEN [s |-> s]
         ELSE LET in == s.auth = "cookie" /\ Matches(s, o.a[1], o.a[2]) IN
              IF (o.body = <<99,111,111,107,105,101>>) # in THEN Bad("login") ELSE Then(IF in THEN [s EXCEPT !.who = [in |-> TRUE, u |-> o.a[1]]] ELSE s, o, "ok")
    [] o.op = "D" -> LET w == Found(s, o.a[1]) IN IF s.torn THEN [s |-> s] ELSE IF w # o.body THEN Bad("plug-in search") ELSE Then(s, o, IF w = << >> THEN "no" ELSE "ok")
RECURSIVE PHistory(_,_,_)
PHistory(s, os, i) == IF i > Len(os) THEN [i |-> 0, why |-> "ok"]
                      ELSE LET r == PAct(s, os[i]) IN IF Has(r) THEN [i |-> i, why |-> r.why] ELSE PHistory(r.s, os, i + 1)
=============================================================================
