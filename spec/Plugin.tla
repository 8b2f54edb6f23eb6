------------------------------- MODULE Plugin ------------------------------
(***************************************************************************)
(* Plug-in references, the libraries behind them, and how a name is found. *)
(*                                                                         *)
(* State:                                                                  *)
(*   fs    : sequence of [p, k, t]: path (components from the root), kind  *)
(*           "dir", "txt", "fifo", "link" (t: target path) or a library    *)
(*           kind such as "A1" (defines the functions of plug-in "A")      *)
(*   cwd   : current directory          dirs : registered directories      *)
(*   stat  : statically linked plug-ins                                    *)
(*   slot  : references, each << >> (closed) or <<name, tag>>              *)
(*   inst  : instances, each [ref, obj] with obj = 0 when empty            *)
(*   n     : number of objects made                                        *)
(* A library is loaded exactly while some reference names it: the set of   *)
(* loaded libraries is derived, not stored.  Tags say which file (or which *)
(* static entry) a plug-in came from.                                      *)
(* Strings are TLA+ strings; TLC gives them Len, SubSeq and \o.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

(* ------------------------------- paths -------------------------------- *)
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Split(_,_,_), Resolve(_,_,_), LastDot(_,_)
\* components of a path
Split(s, i, cur) == IF i > Len(s) THEN (IF cur = "" THEN << >> ELSE <<cur>>)
                    ELSE IF Ch(s, i) = "/" THEN (IF cur = "" THEN << >> ELSE <<cur>>) \o Split(s, i+1, "")
                    ELSE Split(s, i+1, cur \o Ch(s, i))
Absolute(s) == Len(s) > 0 /\ Ch(s, 1) = "@"
\* "." and ".." (the directories of the universe contain no links; "^" is above the root, where nothing is)
Resolve(c, i, acc) == IF i > Len(c) THEN acc
                      ELSE IF c[i] = "." THEN Resolve(c, i+1, acc)
                      ELSE IF c[i] = ".." THEN Resolve(c, i+1, IF acc = << >> \/ acc[Len(acc)] = "^" THEN Append(acc, "^") ELSE SubSeq(acc, 1, Len(acc)-1))
                      ELSE Resolve(c, i+1, Append(acc, c[i]))
From(base, s) == IF Absolute(s) THEN Resolve(Split(SubSeq(s, 2, Len(s)), 1, ""), 1, << >>) ELSE Resolve(base \o Split(s, 1, ""), 1, << >>)
LastDot(s, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = "." THEN i ELSE LastDot(s, i-1)
Stem(s) == LET d == LastDot(s, Len(s)) IN IF d = 0 THEN s ELSE SubSeq(s, 1, d-1)
Ext(s)  == LET d == LastDot(s, Len(s)) IN IF d = 0 THEN "" ELSE SubSeq(s, d, Len(s))
NameOf(path) == Stem(path[Len(path)])

(* ---------------------------- file system ----------------------------- *)
Entry(fs, p) == LET I == {i \in 1..Len(fs) : fs[i].p = p} IN IF I = {} THEN [p |-> p, k |-> "none", t |-> << >>] ELSE fs[CHOOSE i \in I : TRUE]
\* what a path leads to (links are followed once: the universe has no chains)
Kind(fs, p) == IF p = << >> THEN "dir" ELSE LET e == Entry(fs, p) IN IF e.k = "link" THEN (IF e.t = << >> THEN "dir" ELSE Entry(fs, e.t).k) ELSE e.k
Regular(fs, p) == Kind(fs, p) \notin {"none", "dir", "fifo", "link"}
Directory(fs, p) == Kind(fs, p) = "dir"
\* every directory on the way exists
RECURSIVE Reach(_,_,_)
Reach(fs, p, i) == IF i >= Len(p) THEN TRUE ELSE Directory(fs, SubSeq(p, 1, i)) /\ Reach(fs, p, i+1)
Is(fs, p) == p # << >> /\ Reach(fs, p, 1) /\ Regular(fs, p)
Target(fs, p) == LET e == Entry(fs, p) IN IF e.k = "link" THEN e.t ELSE p
LibTag(k) == SubSeq(k, 1, 2)
LibName(k) == Ch(k, 1)

(* -------------------------------- lookup ------------------------------- *)
Candidates(s, name, ext) ==
  <<From(s.cwd, name), From(s.cwd, name \o ext)>> \o
  [i \in 1..2*Len(s.dirs) |-> From(s.dirs[(i+1) \div 2], IF i % 2 = 1 THEN name ELSE name \o ext)]
Hits(s, name, ext) == {i \in 1..(2 + 2*Len(s.dirs)) : Is(s.fs, Candidates(s, name, ext)[i])}
\* the path found, or << >>
FindFile(s, name, ext) == LET H == Hits(s, name, ext) IN
  IF H = {} THEN << >> ELSE Candidates(s, name, ext)[CHOOSE i \in H : \A j \in H : i <= j]
Listed(s) == {Stem(s.fs[i].p[Len(s.fs[i].p)]) : i \in {j \in 1..Len(s.fs) : Ext(s.fs[j].p[Len(s.fs[j].p)]) = ".so" /\ Regular(s.fs, s.fs[j].p)
                   /\ \E d \in 1..Len(s.dirs) : s.dirs[d] = SubSeq(s.fs[j].p, 1, Len(s.fs[j].p) - 1)}} \cup s.stat

(* ------------------------------ references ----------------------------- *)
Refs(s) == {s.slot[i] : i \in 1..Len(s.slot)} \cup {s.inst[i].ref : i \in 1..Len(s.inst)}
Loaded(s) == {r[2] : r \in {x \in Refs(s) : x # << >> /\ Ch(x[2], 1) # "S"}}
ByName(s, nm) == IF nm \in s.stat THEN <<nm, "S" \o nm>>
                 ELSE LET X == {x \in Refs(s) : x # << >> /\ x[1] = nm} IN IF X = {} THEN << >> ELSE CHOOSE x \in X : TRUE
\* opening a file: the reference obtained, or << >> if that fails
OpenFile(s, path) ==
  LET nm == NameOf(path)  known == ByName(s, nm)  k == Kind(s.fs, path) IN
  IF known # << >> THEN known
  ELSE IF Is(s.fs, path) /\ k # "txt" /\ LibName(k) = nm /\ k \notin {"N1", "D1"} THEN <<nm, LibTag(k)>> ELSE << >>
Open(s, name) == LET known == ByName(s, name) IN
  IF known # << >> THEN known
  ELSE LET f == FindFile(s, name, ".so") IN IF f = << >> THEN << >> ELSE OpenFile(s, f)
\* does create of this plug-in fail?  (library T is one whose create function throws)
Throws(ref) == ref[1] = "T"
=============================================================================
