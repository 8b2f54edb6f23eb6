------------------------------ MODULE Registry -----------------------------
(***************************************************************************)
(* The plug-in registry: entries [id, obj, lib], obj the serial number of  *)
(* the object, lib the library that made it ("" if the host did).          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Pre(s, k) == SubSeq(s, 1, k)
\* does an entry's identifier serve a resource?
Serves(id, res) == id = res \/ (Len(id) < Len(res) /\ Pre(res, Len(id)) = id /\ SubSeq(res, Len(id)+1, Len(id)+1) = "/")
At(s, id) == LET I == {i \in 1..Len(s) : s[i].id = id} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Best(s, res) == LET I == {i \in 1..Len(s) : Serves(s[i].id, res)} IN
  IF I = {} THEN 0 ELSE s[CHOOSE i \in I : \A j \in I : Len(s[i].id) >= Len(s[j].id)].obj
Del(s, id) == SelectSeq(s, LAMBDA e : e.id # id)
Via(e) == IF e.lib = "" THEN "delete" ELSE e.lib
Deaths(s) == {<<s[i].obj, Via(s[i])>> : i \in 1..Len(s)}
RECURSIVE SumObj(_,_)
SumObj(s, i) == IF i > Len(s) THEN 0 ELSE s[i].obj + SumObj(s, i+1)
\* libraries a plug-in type names ("B" is linked statically, creating from "T" fails, others do not exist)
TagOf(t) == CASE t = "A" -> "A1" [] t = "B" -> "SB" [] t = "C" -> "C1" [] OTHER -> ""
Res(s, r, dead) == [s |-> s, r |-> r, dead |-> dead, ok |-> TRUE]
(* A call o = [op, a, r, v]: o.v holds the serial numbers the call reported; new objects take theirs    *)
(* from the record.  dead: objects destroyed by the call itself and how.                               *)
Call(s, o) ==
  LET a == o.a  i == At(s, a[1]) IN
  CASE o.op = "add"  -> IF i # 0 THEN Res(s, "throw", {<<o.v[1], "delete">>})         \* the caller keeps it and deletes it
                        ELSE Res(Append(s, [id |-> a[1], obj |-> o.v[1], lib |-> ""]), "ok", {})
    [] o.op = "load" -> IF i # 0 \/ TagOf(a[2]) = "" THEN Res(s, "throw", {})
                        ELSE IF o.r # "ok" THEN Res(s, "ok", {})
                        ELSE Res(Append(s, [id |-> a[1], obj |-> o.v[1], lib |-> TagOf(a[2])]), "ok", {})
    [] o.op = "rem"  -> IF i = 0 THEN Res(s, "throw", {}) ELSE Res(Del(s, a[1]), "ok", {<<s[i].obj, Via(s[i])>>})
    [] o.op = "rep"  -> IF i = 0 THEN Res(s, "throw", {<<o.v[1], "delete">>}) ELSE Res([s EXCEPT ![i].obj = o.v[1]], "ok", {<<s[i].obj, Via(s[i])>>})
    [] o.op = "repc" -> IF i = 0 \/ s[i].lib = "" THEN Res(s, "throw", {}) ELSE IF o.r # "ok" THEN Res(s, "ok", {}) ELSE Res([s EXCEPT ![i].obj = o.v[1]], "ok", {<<s[i].obj, Via(s[i])>>})
    [] o.op = "get"  -> [Res(s, "ok", {}) EXCEPT !.ok = \A k \in 1..Len(o.v) : o.v[k] = (IF i = 0 THEN 0 ELSE s[i].obj)]
    [] o.op = "find" -> [Res(s, "ok", {}) EXCEPT !.ok = (o.v[1] = Best(s, a[1]))]
    [] o.op \in {"clr", "del"} -> Res(<< >>, "ok", Deaths(s))
    [] o.op = "emp"  -> [Res(s, "ok", {}) EXCEPT !.ok = ((o.v[1] = 1) = (s = << >>))]
    [] o.op = "run"  -> [Res(s, "ok", {}) EXCEPT !.ok = (Len(o.v) = Len(s) /\ {o.v[k] : k \in 1..Len(o.v)} = {s[k].obj : k \in 1..Len(s)})]
    [] o.op = "run1" -> IF i = 0 THEN Res(s, "throw", {}) ELSE [Res(s, "ok", {}) EXCEPT !.ok = (o.v = <<s[i].obj>>)]
    [] o.op = "stat" -> [Res(s, "ok", {}) EXCEPT !.ok = (o.v[1] = SumObj(s, 1))]
    [] o.op = "stat1" -> IF i = 0 THEN Res(s, "throw", {}) ELSE [Res(s, "ok", {}) EXCEPT !.ok = (o.v = <<s[i].obj>>)]
    [] o.op = "lib"  -> Res(s, "lib:" \o (IF i = 0 \/ s[i].lib = "" THEN "" ELSE IF s[i].lib = "SB" THEN "B" ELSE SubSeq(s[i].lib, 1, 1)), {})
=============================================================================
