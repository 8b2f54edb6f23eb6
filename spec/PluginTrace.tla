---------------------------- MODULE PluginTrace ----------------------------
(* Recorded histories of plug-in references, lookups and listings            *)
(* (harness/h_plugin.cpp); sequential histories are followed step by step,   *)
(* concurrent ones are one totally ordered log of events.                    *)
EXTENDS Plugin, Integers, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, verdict
vars == <<n, verdict>>
Num(s) == CASE s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3
SetOf(q) == {q[i] : i \in 1..Len(q)}
Start == [fs |-> << >>, cwd |-> << >>, dirs |-> << >>, stat |-> {}, slot |-> << << >>, << >>, << >> >>,
          inst |-> <<[ref |-> << >>, obj |-> 0, tag |-> ""], [ref |-> << >>, obj |-> 0, tag |-> ""]>>, n |-> 0, tags |-> << >>]
Min2(x, y) == IF x < y THEN x ELSE y
R(s, r, v, made, dead) == [s |-> s, r |-> r, v |-> v, made |-> made, dead |-> dead, ok |-> TRUE]
Same(s, r) == R(s, r, "", << >>, << >>)
\* made: tags of the create calls; dead: <<serial, tag>> of the objects destroyed
Made(s, ref, next) == IF Throws(ref) THEN R(s, "throw", "", <<ref[2]>>, << >>)
                      ELSE R([next EXCEPT !.n = @ + 1, !.tags = Append(@, ref[2])], "ok", ref[2], <<ref[2]>>, << >>)
PathStr(p) == IF p = << >> THEN "@" ELSE LET RECURSIVE J(_) J(i) == IF i > Len(p) THEN "" ELSE "/" \o p[i] \o J(i+1) IN "@" \o J(1)
Step(s, o) ==
  LET a == o.a IN
  CASE o.op = "mk" -> Same([s EXCEPT !.fs = Append(@, [p |-> From(<< >>, a[1]), k |-> a[2], t |-> IF a[2] = "link" THEN From(<< >>, a[3]) ELSE << >>])], "ok")
    [] o.op = "rm" -> Same([s EXCEPT !.fs = SelectSeq(@, LAMBDA e : e.p # From(<< >>, a[1]))], "ok")
    [] o.op = "cd" -> Same([s EXCEPT !.cwd = From(@, a[1])], "ok")
    [] o.op = "o"  -> LET r == Open(s, a[2]) IN IF r = << >> THEN Same(s, "throw") ELSE Same([s EXCEPT !.slot[Num(a[1])] = r], "ok")
    [] o.op = "f"  -> LET r == OpenFile(s, From(s.cwd, a[2])) IN IF r = << >> THEN Same(s, "throw") ELSE Same([s EXCEPT !.slot[Num(a[1])] = r], "ok")
    [] o.op = "c"  -> Same([s EXCEPT !.slot[Num(a[1])] = << >>], "ok")
    [] o.op \in {"y", "a"} -> Same([s EXCEPT !.slot[Num(a[1])] = s.slot[Num(a[2])]], "ok")
    [] o.op = "n"  -> LET r == s.slot[Num(a[1])] IN IF r = << >> THEN Same(s, "throw") ELSE Made(s, r, s)
    [] o.op = "x"  -> LET r == s.slot[Num(a[1])] IN
                      IF r = << >> THEN Same(s, "throw")
                      ELSE IF o.r = "none" THEN Same(s, "none") ELSE R(s, "ok", "", << >>, << <<o.dead, r[2]>> >>)
    [] o.op = "ic" -> \* the old instance goes first; a failure leaves no instance behind (or the old one untouched)
         LET i == Num(a[1])  old == s.inst[i]
             dead == IF old.obj = 0 THEN << >> ELSE << <<old.obj, old.ref[2]>> >>
             s1 == [s EXCEPT !.inst[i].obj = 0]
             r == Open(s, a[2]) IN
         IF r = << >> THEN (IF old.obj # 0 /\ Len(o.ev) = 0 THEN Same(s, "throw") ELSE [R(s1, "throw", "", << >>, << >>) EXCEPT !.dead = dead])
         ELSE LET s2 == [s1 EXCEPT !.inst[i].ref = r]  m == Made(s2, r, [s2 EXCEPT !.inst[i].obj = s.n + 1]) IN [m EXCEPT !.dead = dead, !.v = "", !.s = IF m.r = "throw" THEN s2 ELSE m.s]
    [] o.op = "ir" -> LET i == Num(a[1])  old == s.inst[i] IN
                      [R([s EXCEPT !.inst[i].obj = 0], "ok", "", << >>, << >>) EXCEPT !.dead = IF old.obj = 0 THEN << >> ELSE << <<old.obj, old.ref[2]>> >>]
    [] o.op = "id" -> LET i == Num(a[1])  old == s.inst[i] IN
                      [R([s EXCEPT !.inst[i] = [ref |-> << >>, obj |-> 0, tag |-> ""]], "ok", "", << >>, << >>) EXCEPT !.dead = IF old.obj = 0 THEN << >> ELSE << <<old.obj, old.ref[2]>> >>]
    [] o.op = "ad" -> LET p == From(s.cwd, a[1]) IN IF Reach(s.fs, p, 1) /\ Directory(s.fs, p) THEN Same([s EXCEPT !.dirs = Append(@, p)], "ok") ELSE Same(s, "throw")
    [] o.op = "rd" -> Same([s EXCEPT !.dirs = << >>], "ok")
    [] o.op = "st" -> Same(IF ByName(s, a[1]) # << >> THEN s ELSE [s EXCEPT !.stat = @ \cup {a[1]}], "ok")
    [] o.op = "fp" -> LET f == FindFile(s, a[1], ".so") IN IF f = << >> THEN R(s, "none", "unset", << >>, << >>) ELSE R(s, "ok", PathStr(Target(s.fs, f)), << >>, << >>)
    [] o.op = "fc" -> LET f == FindFile(s, a[1], ".conf") IN IF f = << >> THEN R(s, "none", "unset", << >>, << >>) ELSE R(s, "ok", PathStr(Target(s.fs, f)), << >>, << >>)
    [] o.op = "ls" -> [Same(s, "ok") EXCEPT !.ok = (SetOf(o.lst) = Listed(s) /\ Len(o.lst) = Cardinality(Listed(s)))]
DeadIn(ev) == SelectSeq(ev, LAMBDA e : SubSeq(e[2], 1, Min2(3, Len(e[2]))) # "lib")
Seen(s, o, e) ==
  IF ~e.ok THEN "list"
  ELSE IF o.r # e.r THEN "result"
  ELSE IF o.op \in {"n", "fp", "fc"} /\ o.r # "throw" /\ o.v # e.v THEN "value"
  ELSE IF \E i \in 1..3 : o.names[i] # (IF e.s.slot[i] = << >> THEN "" ELSE e.s.slot[i][1]) THEN "references"
  ELSE IF \E i \in 1..2 : (o.insts[i] = "") # (e.s.inst[i].obj = 0) THEN "instances"
  ELSE IF \E i \in 1..2 : o.insts[i] # "" /\ o.insts[i] # e.s.inst[i].ref[2] \o "#" \o ToString(e.s.inst[i].obj) THEN "which instance"
  ELSE IF SetOf(o.loaded) # Loaded(e.s) THEN "loaded libraries"
  ELSE IF o.made # e.made THEN "create calls"
  ELSE IF DeadIn(o.ev) # e.dead THEN "destroy calls"
  ELSE IF e.r = "throw" /\ o.op \in {"o", "f"} /\ \E i \in 1..Len(o.ev) : o.ev[i][1] = -1 /\ SubSeq(o.ev[i][2], 5, Len(o.ev[i][2])) \in Loaded(s) THEN "failed open unloaded a library"
  \* a library that stays in use is not unloaded and loaded again
  ELSE IF \E i \in 1..Len(o.ev) : LET t == SubSeq(o.ev[i][2], 5, Len(o.ev[i][2])) IN o.ev[i][1] = -1 /\ t \in Loaded(s) /\ t \in Loaded(e.s) THEN "a library in use was unloaded"
  ELSE "ok"
RECURSIVE Run(_,_,_), Conc(_,_,_,_)
Run(rec, s, i) ==
  IF i > Len(rec.steps)
  THEN IF rec.endloaded # << >> THEN <<"library still loaded at the end", i>>
       ELSE LET want == {<<s.inst[j].obj, s.inst[j].ref[2]>> : j \in {k \in 1..2 : s.inst[k].obj # 0}} IN
            IF SetOf(DeadIn(rec.endev)) # want \/ Len(DeadIn(rec.endev)) # Cardinality(want) THEN <<"instances destroyed at the end", i>> ELSE <<"ok", i>>
  ELSE LET o == rec.steps[i]  e == Step(s, o)  w == Seen(s, o, e) IN IF w # "ok" THEN <<w, i>> ELSE Run(rec, e.s, i+1)
(* concurrent log: [1,"lib T"] loaded, [-1,"lib T"] unloaded, [2,k] reference k may be given up from   *)
(* here on, [3,k,name] reference k is open, [4,name,tag] object made through a plug-in of that name,   *)
(* [5,..] error.  held: the references known to be open; mem: which libraries are in memory.           *)
Conc(log, i, held, mem) ==
  IF i > Len(log) THEN IF mem = {} THEN <<"ok", i>> ELSE <<"library still loaded at the end", i>>
  ELSE LET e == log[i] IN
    CASE e[1] = 1 -> IF e[2] \in mem THEN <<"loaded twice", i>> ELSE Conc(log, i+1, held, mem \cup {e[2]})
      [] e[1] = -1 -> IF e[2] \notin mem THEN <<"unloaded twice", i>>
                      ELSE IF \E h \in held : "lib " \o h[2] \o "1" = e[2] THEN <<"unloaded while in use", i>> ELSE Conc(log, i+1, held, mem \ {e[2]})
      [] e[1] = 2 -> Conc(log, i+1, {h \in held : h[1] # e[2]}, mem)
      [] e[1] = 3 -> IF "lib " \o e[3] \o "1" \notin mem THEN <<"open but not loaded", i>> ELSE Conc(log, i+1, held \cup {<<e[2], e[3]>>}, mem)
      [] e[1] = 4 -> IF e[3] # e[2] \o "1" THEN <<"wrong library", i>> ELSE Conc(log, i+1, held, mem)
      [] e[1] = 5 -> <<"error", i>>
      [] OTHER -> Conc(log, i+1, held, mem)
IsDeath(e) == Len(e) = 2 /\ e[1] > 0 /\ e[2] \in {"A1", "B1", "C1", "SA", "SB", "delete"}
Verdict(rec) == IF rec.kind = "ref" THEN Run(rec, Start, 1) ELSE Conc(SelectSeq(rec.log, LAMBDA e : ~IsDeath(e)), 1, {}, {})
Init == n \in 1..Len(Log) /\ verdict = << >>
Decide == /\ verdict = << >>
          /\ verdict' = Verdict(Log[n])
          /\ PrintT(<<"@@", Log[n].id, verdict'[1], verdict'[2]>>)
          /\ UNCHANGED n
Spec == Init /\ [][Decide]_vars
=============================================================================
