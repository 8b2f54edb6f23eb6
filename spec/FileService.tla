----------------------------- MODULE FileService ---------------------------
(***************************************************************************)
(* Web servers that serve (and change) files: which file a request means,   *)
(* what is answered, what the disk looks like afterwards, and what may be   *)
(* answered from memory.                                                    *)
(*                                                                          *)
(* The client's requests, the options and the changes other programs make   *)
(* to the disk are the input.  Step judges every answer and every change of *)
(* the disk.  Paths are sequences of names below the tree of the history;   *)
(* the disk is a sequence of [p: path, d: directory?, c: content as runs,   *)
(* t: time of the last change, r, w: may be read, written].                 *)
(***************************************************************************)
EXTENDS HttpServer
NLastModified == <<108,97,115,116,45,109,111,100,105,102,105,101,100>>
NIfModified   == <<105,102,45,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>
NContentType  == <<99,111,110,116,101,110,116,45,116,121,112,101>>
NAllow        == <<97,108,108,111,119>>
MGet == <<71,69,84>>  MPut == <<80,85,84>>  MPost == <<80,79,83,84>>  MDelete == <<68,69,76,69,84,69>>
Dotted == <<DOT>>   Up == <<DOT, DOT>>   AT == 64
ROOT == << <<112>>, <<113>>, <<114>> >>       \* the directory "@"
CWD  == ROOT \o << <<120>>, <<121>> >>    \* the working directory

(* -------------------------------- paths -------------------------------- *)
RECURSIVE Pieces(_,_,_)
Pieces(s, i, cur) == IF i > Len(s) THEN <<cur>> ELSE IF s[i] = SLASH THEN <<cur>> \o Pieces(s, i + 1, << >>) ELSE Pieces(s, i + 1, Append(cur, s[i]))
Names(s) == Pieces(s, 1, << >>)
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* the path that names cs lead to from path p, and how far up they go on the way
RECURSIVE Walk(_,_,_,_)
Walk(p, cs, i, low) ==
  IF i > Len(cs) THEN [p |-> p, low |-> low]
  ELSE IF cs[i] \in {<< >>, Dotted} THEN Walk(p, cs, i + 1, low)
  ELSE IF cs[i] = Up THEN (IF p = << >> THEN Walk(p, cs, i + 1, -1) ELSE Walk(Front(p), cs, i + 1, IF Len(p) - 1 < low THEN Len(p) - 1 ELSE low))
  ELSE Walk(Append(p, cs[i]), cs, i + 1, low)
Within(d, p) == Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d)) = d
RECURSIVE Join(_)
Join(cs) == IF cs = << >> THEN << >> ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o <<SLASH>> \o Join(Tail(cs))
\* the path of an option's value
OptionPath(v) == IF v # << >> /\ v[1] = AT THEN Walk(ROOT, Names(Tail(v)), 1, 0).p ELSE Walk(CWD, Names(v), 1, 0).p
At(fs, p) == LET S == {i \in 1..Len(fs) : fs[i].p = Join(p)} IN IF S = {} THEN 0 ELSE OneOf(S)
IsDir(fs, p) == p = << >> \/ (At(fs, p) # 0 /\ fs[At(fs, p)].d)
IsFile(fs, p) == p # << >> /\ At(fs, p) # 0 /\ ~fs[At(fs, p)].d

(* ------------------------------ HTTP dates ----------------------------- *)
DayName(i) == << <<84,104,117>>, <<70,114,105>>, <<83,97,116>>, <<83,117,110>>, <<77,111,110>>, <<84,117,101>>, <<87,101,100>> >>[i + 1]
MonthName(i) == << <<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>, <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>> >>[i]
LeapYear(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
YearDays(y) == IF LeapYear(y) THEN 366 ELSE 365
MonthDays(y, m) == CASE m = 2 -> (IF LeapYear(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE YearOf(_,_)
YearOf(d, y) == IF d < YearDays(y) THEN <<y, d>> ELSE YearOf(d - YearDays(y), y + 1)
RECURSIVE MonthOf(_,_,_)
MonthOf(d, y, m) == IF d < MonthDays(y, m) THEN <<m, d + 1>> ELSE MonthOf(d - MonthDays(y, m), y, m + 1)
Two(n) == << 48 + (n \div 10), 48 + (n % 10) >>
HttpDate(t) ==
  LET d == t \div 86400  s == (t % 86400)  y == YearOf(d, 1970)  m == MonthOf(y[2], y[1], 1)
  IN DayName(d % 7) \o <<COMMA, SP>> \o Two(m[2]) \o <<SP>> \o MonthName(m[1]) \o <<SP>> \o M!DigitsOf(y[1]) \o <<SP>>
     \o Two(s \div 3600) \o <<COLON>> \o Two((s % 3600) \div 60) \o <<COLON>> \o Two(s % 60) \o <<32,71,77,84>>
KnownTypes == << <<<<106,115>>, <<116,101,120,116,47,106,97,118,97,115,99,114,105,112,116>>>>, <<<<116,120,116>>, <<116,101,120,116,47,112,108,97,105,110>>>>, <<<<120,109,108>>, <<116,101,120,116,47,120,109,108>>>>, <<<<99,115,115>>, <<116,101,120,116,47,99,115,115>>>>, <<<<104,116,109>>, <<116,101,120,116,47,104,116,109,108>>>>, <<<<104,116,109,108>>, <<116,101,120,116,47,104,116,109,108>>>>, <<<<120,104,116,109,108>>, <<116,101,120,116,47,104,116,109,108>>>>, <<<<103,105,102>>, <<105,109,97,103,101,47,103,105,102>>>>, <<<<112,110,103>>, <<105,109,97,103,101,47,112,110,103>>>>, <<<<106,112,103>>, <<105,109,97,103,101,47,106,112,101,103>>>>, <<<<106,112,101,103>>, <<105,109,97,103,101,47,106,112,101,103>>>>, <<<<115,118,103>>, <<105,109,97,103,101,47,115,118,103,43,120,109,108>>>>, <<<<101,111,102>>, <<97,112,112,108,105,99,97,116,105,111,110,47,118,110,100,46,109,115,45,102,111,110,116,111,98,106,101,99,116>>>>, <<<<111,116,102>>, <<97,112,112,108,105,99,97,116,105,111,110,47,120,45,102,111,110,116,45,111,112,101,110,116,121,112,101>>>>, <<<<116,116,102>>, <<97,112,112,108,105,99,97,116,105,111,110,47,120,45,102,111,110,116,45,116,116,102>>>>, <<<<119,111,102,102>>, <<97,112,112,108,105,99,97,116,105,111,110,47,102,111,110,116,45,119,111,102,102>>>> >>
Default == <<97,112,112,108,105,99,97,116,105,111,110,47,111,99,116,101,116,45,115,116,114,101,97,109>>
TypeOfSuffix(e) == LET S == {i \in 1..Len(KnownTypes) : KnownTypes[i][1] = SLower(e)} IN IF S = {} THEN Default ELSE KnownTypes[OneOf(S)][2]
Dots(s) == {i \in 1..Len(s) : s[i] = DOT}
TypesOf(name) == IF Dots(name) = {} THEN {Default, TypeOfSuffix(name)}
                 ELSE {TypeOfSuffix(SubSeq(name, 1 + CHOOSE i \in Dots(name) : \A j \in Dots(name) : j <= i, Len(name)))}

(* ------------------------------- services ------------------------------ *)
NewService(n) == [n |-> n, dir |-> << >>, file |-> << >>, cache |-> 1, scan |-> 0, chunk |-> 0, wr |-> FALSE, ent |-> << >>]
\* dir, file: << >> or <<path>>.  ent: what may be in memory, [k: key, s: contents (set of [c, t, at]), may: perhaps not there at all]
Entry(v, k) == LET S == {i \in 1..Len(v.ent) : v.ent[i].k = k} IN IF S = {} THEN 0 ELSE OneOf(S)
Number(v) == v # << >> /\ \A i \in 1..Len(v) : IsDigit(v[i])
RECURSIVE Value(_,_)
Value(v, n) == IF v = << >> THEN n ELSE Value(Tail(v), n * 10 + v[1] - 48)
SetOption(v, fs, name, val) ==    \* [ok, v]
  LET p == OptionPath(val)  Yes(w) == [ok |-> TRUE, v |-> w]  No == [ok |-> FALSE, v |-> v] IN
  CASE name = <<100,105,114,101,99,116,111,114,121>> -> IF val # << >> /\ IsDir(fs, p) THEN Yes([v EXCEPT !.dir = <<p>>]) ELSE No
    [] name = <<102,105,108,101>> -> IF val # << >> /\ IsFile(fs, p) THEN Yes([v EXCEPT !.file = <<p>>]) ELSE No
    [] name = <<99,97,99,104,101>> -> IF val \in { <<48>>, <<49>>, <<50>> } THEN Yes([v EXCEPT !.cache = val[1] - 48]) ELSE No
    [] name = <<115,99,97,110>> -> IF val \in { <<48>>, <<49>>, <<50>>, <<51>> } THEN Yes([v EXCEPT !.scan = val[1] - 48]) ELSE No
    [] name = <<109,97,120,95,99,104,117,110,107,95,115,105,122,101>> -> IF Number(val) THEN Yes([v EXCEPT !.chunk = Value(val, 0)]) ELSE No
    [] name = <<119,114,105,116,97,98,108,101>> -> IF val \in { <<116,114,117,101>>, <<102,97,108,115,101>> } THEN Yes([v EXCEPT !.wr = val = <<116,114,117,101>>]) ELSE No
    [] OTHER -> No
Snap(f, now) == [c |-> f.c, t |-> f.t, at |-> now]
\* files known when the service starts
Listed(v, fs) ==
  (IF v.file # << >> /\ IsFile(fs, v.file[1]) THEN << <<(<< >>), At(fs, v.file[1])>> >> ELSE << >>)
  \o (IF v.dir = << >> THEN << >> ELSE
      LET pre == Join(v.dir[1]) \o <<SLASH>>
          Take(i) == ~fs[i].d /\ StartsWith(fs[i].p, pre)
          is == SelectSeq([i \in 1..Len(fs) |-> i], Take)
      IN [j \in 1..Len(is) |-> <<SubSeq(fs[is[j]].p, Len(pre) + 1, Len(fs[is[j]].p)), is[j]>>])
StartService(v, fs, now) ==
  IF v.scan = 0 THEN v
  ELSE LET w == [v EXCEPT !.cache = IF v.scan > 1 /\ @ = 0 THEN 1 ELSE @]
           Kept(e) == v.scan = 1 \/ fs[e[2]].r
           es == SelectSeq(Listed(v, fs), Kept)
       IN [w EXCEPT !.ent = [j \in 1..Len(es) |-> [k |-> es[j][1], may |-> FALSE, s |-> IF v.scan = 1 THEN {} ELSE {Snap(fs[es[j][2]], now)}]]]

(* ------------------------------- answers ------------------------------- *)
\* x: [fs, fs2: disk before and after, q, rs: request and response, now, e: connection closed]
Same(x) == x.fs2 = x.fs
Lives(x, ka) == KeepsAlive(x.rs.h) = ka /\ x.e = ~ka
Page(x, code) == x.rs.ok /\ x.rs.sc = code /\ ~Reflects(x.rs.body, x.q.o)
Answer(x, code) == Page(x, code) /\ Lives(x, x.q.ka)
Error(x, code) == Answer(x, code) /\ Same(x)
Failed(x) == Page(x, 500) /\ Same(x) /\ (Lives(x, x.q.ka) \/ Lives(x, FALSE))
HeaderIs(x, n, V) == M!DVals(x.rs.h, n) # {} /\ M!DVals(x.rs.h, n) \subseteq V
Asks(x, g) == M!DHas(x.q.h, NIfModified) /\ OneOf(M!DGets(x.q.h, NIfModified)) = HttpDate(g.t)
\* the answer is version g of a file with one of the types given
Fits(x, v, g, types) ==
  /\ x.rs.ok /\ Same(x) /\ HeaderIs(x, NLastModified, {HttpDate(g.t)}) /\ (types = {} \/ HeaderIs(x, NContentType, types))
  /\ IF Asks(x, g) THEN x.rs.sc = 304 /\ x.rs.rbody = << >> /\ Lives(x, x.q.ka)
     ELSE IF x.q.head THEN x.rs.sc = 200 /\ x.rs.rbody = << >> /\ Lives(x, x.q.ka)
     ELSE x.rs.sc = 200 /\ x.rs.rbody = g.c /\ Lives(x, x.q.ka /\ (v.chunk = 0 \/ RLen(g.c) <= v.chunk \/ x.q.sup))
PutEntry(v, k, e) == LET i == Entry(v, k) IN IF i = 0 THEN [v EXCEPT !.ent = Append(@, e)] ELSE [v EXCEPT !.ent[i] = e]
\* a copy is as good as the file if the file looks unchanged, and had not just been changed when it was copied
Trusted(g, cur) == g.t = cur.t /\ RLen(g.c) = RLen(cur.c) /\ g.t < g.at - 1
Fetch(x, v, p, key, clean) ==   \* [why] or [v]
  LET i == Entry(v, key)
      f == At(x.fs, p)
      cur == IF f = 0 THEN [c |-> << >>, t |-> 0, at |-> 0] ELSE Snap(x.fs[f], x.now)
      may == IF i = 0 THEN TRUE ELSE v.ent[i].may
      old == IF i = 0 \/ v.cache = 0 THEN {} ELSE v.ent[i].s
      good == IF v.cache = 2 THEN old ELSE IF f = 0 THEN {} ELSE {g \in old : Trusted(g, cur)}
      sealed == v.cache = 2 /\ old # {} /\ ~may      \* the disk does not matter
      types == IF clean THEN TypesOf(p[Len(p)]) ELSE {}
      M1 == {g \in good : Fits(x, v, g, types)}
      here == ~sealed /\ f # 0 /\ (x.fs[f].r \/ x.fs[f].c = << >> \/ x.q.head \/ Asks(x, cur)) /\ Fits(x, v, cur, types)
      full == x.rs.sc = 200 /\ ~x.q.head
      s2 == M1 \cup (IF here THEN {cur} ELSE {}) IN
  IF i = 0 /\ v.scan \in {1, 3} /\ Error(x, 404) THEN [v |-> v]
  ELSE IF i = 0 /\ v.scan \in {1, 3} /\ clean THEN Bad("a file that was not there at the start")
  ELSE IF s2 # {} THEN
    [v |-> IF v.cache = 0 THEN v ELSE PutEntry(v, key, [k |-> key, may |-> may /\ ~full, s |-> IF full THEN s2 ELSE s2 \cup good])]
  ELSE IF ~sealed /\ f = 0 THEN (IF Error(x, 404) THEN [v |-> v] ELSE Bad("answer for a file that is not there"))
  ELSE IF ~sealed /\ ~x.fs[f].r THEN (IF Failed(x) THEN [v |-> v] ELSE Bad("answer for a file that cannot be read"))
  ELSE Bad("answer for a file")

(* ------------------------------- changes ------------------------------- *)
Others(fs, p) == LET Other(g) == g.p # Join(p) IN SelectSeq(fs, Other)
Writing(x, p) ==
  LET f == At(x.fs, p)  g == At(x.fs2, p)
      before == IF f = 0 \/ x.q.m = MPut THEN << >> ELSE x.fs[f].c
      can == IF f # 0 THEN x.fs[f].w ELSE p # << >> /\ IsDir(x.fs, Front(p)) /\ (Front(p) = << >> \/ x.fs[At(x.fs, Front(p))].w)
  IN IF f = 0 /\ (p = << >> \/ At(x.fs, Front(p)) = 0) THEN (IF Error(x, 404) THEN "ok" ELSE "answer for a directory that is not there")
     ELSE IF f = 0 /\ ~IsDir(x.fs, Front(p)) THEN (IF Failed(x) \/ Error(x, 404) THEN "ok" ELSE "answer for a file below a file")
     ELSE IF ~can THEN (IF Failed(x) THEN "ok" ELSE "answer for a file that cannot be written")
     ELSE IF g = 0 \/ x.fs2[g].d \/ x.fs2[g].c # RConcat(before, x.q.b) THEN "content of the file"
     ELSE IF Others(x.fs2, p) # Others(x.fs, p) THEN "another file was changed"
     ELSE IF f # 0 THEN (IF Answer(x, 204) THEN "ok" ELSE "answer to a change")
     ELSE IF Answer(x, 201) /\ M!DVals(x.rs.h, NLocation) = {x.q.o} THEN "ok" ELSE "answer to a new file"
Deleting(x, p) ==
  LET f == At(x.fs, p) IN
  IF f = 0 THEN (IF Error(x, 404) THEN "ok" ELSE "answer for a file that is not there")
  ELSE IF ~x.fs[At(x.fs, Front(p))].w THEN (IF Failed(x) THEN "ok" ELSE "answer for a file that cannot be deleted")
  ELSE IF At(x.fs2, p) # 0 THEN "the file was not deleted"
  ELSE IF Others(x.fs, p) # x.fs2 THEN "another file was changed"
  ELSE IF Answer(x, 204) THEN "ok" ELSE "answer to a deletion"
Refused(x) == Error(x, 405) /\ M!DVals(x.rs.h, NAllow) # {} /\ \A a \in M!DVals(x.rs.h, NAllow) : \A n \in {MGet, M!THead} : FindFrom(n, a, 1) # 0

(* ------------------------------- requests ------------------------------ *)
Request(x, v) ==    \* [why] or [v]
  LET rel == IF Len(x.q.o) <= Len(v.n) THEN << >> ELSE M!UrlDecode(SubSeq(x.q.o, Len(v.n) + 2, Len(x.q.o)))
      cs == Names(rel)
      w == IF v.dir = << >> THEN [p |-> << >>, low |-> 0] ELSE Walk(v.dir[1], cs, 1, Len(v.dir[1]))
      p == IF rel = << >> THEN (IF v.file = << >> THEN << >> ELSE v.file[1]) ELSE w.p
      clean == rel = << >> \/ Join(SubSeq(p, Len(v.dir[1]) + 1, Len(p))) = rel
      trailing == rel # << >> /\ cs[Len(cs)] \in {<< >>, Dotted}
      V(r) == IF r = "ok" THEN [v |-> v] ELSE Bad(r) IN
  IF (IF rel = << >> THEN v.file ELSE v.dir) = << >> THEN V(IF Error(x, 404) THEN "ok" ELSE "answer without a file or directory")
  ELSE IF rel # << >> /\ ~Within(v.dir[1], p) THEN V(IF Error(x, 403) THEN "ok" ELSE "a path out of the directory")
  ELSE IF rel # << >> /\ w.low < Len(v.dir[1]) /\ Error(x, 403) THEN [v |-> v]
  ELSE IF IsDir(x.fs, p) THEN V(IF Error(x, 403) THEN "ok" ELSE "answer for a directory")
  ELSE IF trailing /\ (Error(x, 404) \/ Failed(x)) THEN [v |-> v]
  ELSE IF x.q.m \in {MGet, M!THead} THEN Fetch(x, v, p, rel, clean)
  ELSE IF x.q.m \in {MPut, MPost, MDelete} THEN
    IF ~v.wr THEN V(IF Refused(x) THEN "ok" ELSE "a change that is not allowed")
    ELSE V(IF x.q.m = MDelete THEN Deleting(x, p) ELSE Writing(x, p))
  ELSE V(IF Error(x, 501) THEN "ok" ELSE "answer to a method that is not known")
FQuery(s, o) ==
  LET p == ReadRequest(o.a, DEFAULT_MAX)  q == Asked(p)
      x == [fs |-> s.fs, fs2 |-> o.fs, q |-> q, rs |-> ReadResponse(o.d, q.head, o.e), now |-> s.now, e |-> o.e]
      i == Route(s.svcs, Strip(q.o)) IN
  IF ~s.on THEN (IF o.d = << >> /\ Same(x) THEN [s |-> s] ELSE Bad("answer of a server that is not running"))
  ELSE IF p.v # "ok" \/ p.n # RLen(o.a) THEN Bad("test: not one request")
  ELSE IF ~x.rs.ok \/ x.rs.n # RLen(o.d) THEN Bad("not one complete response")
  ELSE IF i = 0 THEN (IF Error(x, 404) THEN [s |-> s] ELSE Bad("answer without a service"))
  ELSE LET r == Request(x, s.svcs[i]) IN IF Has(r) THEN r ELSE [s |-> [s EXCEPT !.svcs[i] = r.v]]
Index(s, n) == LET S == {i \in 1..Len(s.svcs) : s.svcs[i].n = Strip(n)} IN IF S = {} THEN 0 ELSE OneOf(S)
Missing(s) == \E i \in 1..Len(s.svcs) : LET v == s.svcs[i] IN v.scan > 0 /\ ((v.file # << >> /\ ~IsFile(s.fs, v.file[1])) \/ (v.dir # << >> /\ ~IsDir(s.fs, v.dir[1])))
FAct(s, o) ==
  CASE o.op = "N" -> [s |-> [s EXCEPT !.svcs = Append(@, NewService(Strip(o.a)))]]
    [] o.op = "O" -> LET i == Index(s, o.a)  r == IF i = 0 THEN [ok |-> FALSE] ELSE SetOption(s.svcs[i], s.fs, o.b, o.v)
                     IN IF r.ok # o.ok THEN Bad(IF o.ok THEN "option accepted" ELSE "option refused") ELSE [s |-> IF r.ok THEN [s EXCEPT !.svcs[i] = r.v] ELSE s]
    [] o.op = "G" -> IF ~o.ok THEN (IF Missing(s) THEN [s |-> s] ELSE Bad("the server did not start"))
                     ELSE [s |-> [s EXCEPT !.on = TRUE, !.svcs = [i \in 1..Len(@) |-> StartService(@[i], s.fs, s.now)]]]
    [] o.op = "P" -> [s |-> [s EXCEPT !.on = FALSE, !.svcs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ent = << >>]]]]
    [] o.op = "T" -> [s |-> [s EXCEPT !.now = @ + o.n]]
    [] o.op = "Q" -> FQuery(s, o)
    [] OTHER -> [s |-> s]
FStep(s, o) ==
  LET r == FAct(s, o) IN
  IF Has(r) THEN r
  ELSE IF o.op \in {"N", "O", "G", "P", "T"} /\ o.fs # s.fs THEN Bad("the disk was changed")
  ELSE [s |-> [r.s EXCEPT !.fs = o.fs]]
FInit(fs) == [svcs |-> << >>, on |-> FALSE, now |-> 1700000000, fs |-> fs]
RECURSIVE FHistory(_,_,_)
FHistory(s, os, i) == IF i > Len(os) THEN [i |-> 0, why |-> "ok"]
                      ELSE LET r == FStep(s, os[i]) IN IF Has(r) THEN [i |-> i, why |-> r.why] ELSE FHistory(r.s, os, i + 1)
=============================================================================
