------------------------------- MODULE Admin -------------------------------
(* Administrative rights: the ids of the process as the kernel keeps them,   *)
(* the objects that hold the rights, and the resolution of names.  Ids are   *)
(* decimal strings given as digit sequences (they go up to 2^32-1).          *)
EXTENDS Bytes
Root == <<48>>
NoId == <<45, 49>>                          \* "-1"
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
MaxId == <<52,50,57,52,57,54,55,50,57,53>>  \* 4294967295: no id (the kernel refuses it); the largest number that fits
RECURSIVE LexLE(_,_)
LexLE(a, b) == a = << >> \/ (a[1] < b[1]) \/ (a[1] = b[1] /\ LexLE(Tail(a), Tail(b)))
ValidId(d) == Len(d) < 10 \/ (Len(d) = 10 /\ LexLE(d, MaxId))
AllDigits(s) == Len(s) > 0 /\ \A k \in 1..Len(s) : IsDigit(s[k])
RECURSIVE Fields(_,_,_)
Fields(s, k, cur) == IF k > Len(s) THEN <<cur>> ELSE IF s[k] = COLON THEN <<cur>> \o Fields(s, k+1, << >>) ELSE Fields(s, k+1, Append(cur, s[k]))
FieldsOf(line) == Fields(line, 1, << >>)
\* the id a name stands for in a table of lines name:...:id:..., NoId if there is none
RECURSIVE IdFrom(_,_,_)
IdFrom(tab, name, k) == IF k > Len(tab) THEN NoId
  ELSE LET f == FieldsOf(tab[k]) IN
       IF f[1] # name THEN IdFrom(tab, name, k+1)
       ELSE IF Len(f) >= 3 /\ AllDigits(f[3]) /\ ValidId(Strip(f[3])) THEN Strip(f[3]) ELSE NoId
Resolve(tab, name) == IF AllDigits(name) THEN (IF ValidId(Strip(name)) THEN Strip(name) ELSE NoId) ELSE IF name = << >> THEN NoId ELSE IdFrom(tab, name, 1)

VARIABLES ruid, euid, suid, egid, gids,  \* ids of the process; gids: real and saved group
          holder,                        \* object that holds the rights, 0 if none
          objs,                          \* {[o, has, saved]}: objects that exist
          pend                           \* open calls [c, op, o, n, ph, r]
avars == <<ruid, euid, suid, egid, gids, holder, objs, pend>>
AInit(r, e, s, g, gs) == ruid = r /\ euid = e /\ suid = s /\ egid = g /\ gids = gs /\ holder = 0 /\ objs = {} /\ pend = {}
\* seteuid as the kernel does it
May(u) == u # MaxId /\ (euid = Root \/ u \in {ruid, euid, suid})
MayG(g) == g # MaxId /\ (euid = Root \/ g \in gids \cup {egid})

Invoke(c, op, o, nm) == /\ ~(\E p \in pend : p.c = c)
                        /\ pend' = pend \cup {[c |-> c, op |-> op, o |-> o, n |-> nm, ph |-> "called", r |-> << >>]}
                        /\ UNCHANGED <<ruid, euid, suid, egid, gids, holder, objs>>
Done(p, r) == pend' = (pend \ {p}) \cup {[p EXCEPT !.ph = "done", !.r = r]}
\* a new object waits until nobody has the rights; it then has them if the process may have them
Make(p) == /\ p.op = "M" /\ holder = 0 /\ Done(p, << >>)
           /\ IF May(Root) THEN /\ euid' = Root /\ holder' = p.o /\ objs' = objs \cup {[o |-> p.o, has |-> TRUE, saved |-> euid]}
                           ELSE UNCHANGED <<euid, holder>> /\ objs' = objs \cup {[o |-> p.o, has |-> FALSE, saved |-> euid]}
           /\ UNCHANGED <<ruid, suid, egid, gids>>
\* giving the rights back: exactly the user from before
Release(p) == /\ p.op \in {"L", "K"} /\ Done(p, << >>)
              /\ \E x \in objs : /\ x.o = p.o
                                 /\ IF x.has THEN euid' = (IF May(x.saved) THEN x.saved ELSE euid) /\ holder' = 0
                                             ELSE UNCHANGED <<euid, holder>>
                                 /\ objs' = (objs \ {x}) \cup (IF p.op = "L" THEN {[x EXCEPT !.has = FALSE]} ELSE {})
              /\ UNCHANGED <<ruid, suid, egid, gids>>
Look(p) == p.op = "E" /\ Done(p, euid) /\ UNCHANGED <<ruid, euid, suid, egid, gids, holder, objs>>
\* run as the user or group of that name: its id is returned and used, -1 if that is not permitted;
\* a name that stands for nothing changes nothing
RunUser(p, tab) == /\ p.op = "U"
                   /\ LET u == Resolve(tab, p.n) IN
                      IF u = NoId THEN Done(p, euid) /\ UNCHANGED euid
                      ELSE IF May(u) THEN Done(p, u) /\ euid' = u
                      ELSE Done(p, NoId) /\ UNCHANGED euid
                   /\ UNCHANGED <<ruid, suid, egid, gids, holder, objs>>
RunGroup(p, tab) == /\ p.op = "G"
                    /\ LET g == Resolve(tab, p.n) IN
                       IF g = NoId THEN Done(p, egid) /\ UNCHANGED egid
                       ELSE IF MayG(g) THEN Done(p, g) /\ egid' = g
                       ELSE Done(p, NoId) /\ UNCHANGED egid
                    /\ UNCHANGED <<ruid, euid, suid, gids, holder, objs>>
Effect(users, groups) == \E p \in pend : p.ph = "called" /\ (Make(p) \/ Release(p) \/ Look(p) \/ RunUser(p, users) \/ RunGroup(p, groups))
Return(c, r) == \E p \in pend : p.c = c /\ p.ph = "done" /\ p.r = r /\ pend' = pend \ {p} /\ UNCHANGED <<ruid, euid, suid, egid, gids, holder, objs>>
\* at rest only new objects wait, and only for a holder
Quiet == \A p \in pend : p.op = "M" /\ p.ph = "called" /\ holder # 0

OneHolder == /\ Cardinality({x \in objs : x.has}) <= 1 /\ (holder # 0 <=> \E x \in objs : x.has)
=============================================================================
