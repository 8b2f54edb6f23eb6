------------------------------- MODULE Users -------------------------------
(***************************************************************************)
(* The user registry.  A state is                                          *)
(*   objs : the user objects ever made, each [name, cred]                  *)
(*   map  : sequence of [name, obj] - which object a name stands for now   *)
(*   held : object a client obtained earlier and kept (0: none)            *)
(* A credential is a password or a digest; digests are known to the spec   *)
(* only through Dig, the set of <<password, sha1, sha256>> of the passwords *)
(* in play: the hash itself is outside the model (trusted: OpenSSL).       *)
(***************************************************************************)
EXTENDS Bytes, TLC
GoodDigest(d) == Len(d) \in {40, 64} /\ \A i \in 1..Len(d) : IsHex(d[i])
Pw(p) == [k |-> "pw", v |-> p]
Dg(d) == [k |-> "dg", v |-> SLower(d)]
None == [k |-> "none", v |-> << >>]
\* does password p open a credential?
Opens(dig, c, p) ==
  IF c.k = "pw" THEN p = c.v
  ELSE IF c.k = "none" THEN FALSE
  ELSE \E i \in 1..Len(dig) : dig[i][1] = p /\ c.v = (IF Len(c.v) = 40 THEN dig[i][2] ELSE dig[i][3])
\* the text kept for a credential: its digest, or the password itself in builds without OpenSSL
Kept(dig, ssl, c) ==
  IF c.k = "dg" THEN {c.v} ELSE IF c.k = "none" THEN {<< >>}
  ELSE IF ~ssl THEN {c.v} ELSE {SLower(dig[i][3]) : i \in {j \in 1..Len(dig) : dig[j][1] = c.v}}
Start == [objs |-> << >>, map |-> << >>, held |-> 0]
Find(s, nm) == LET I == {i \in 1..Len(s.map) : s.map[i].name = nm} IN IF I = {} THEN 0 ELSE s.map[CHOOSE i \in I : TRUE].obj
Add(s, nm, c) == [s EXCEPT !.objs = Append(@, [name |-> nm, cred |-> c]), !.map = Append(@, [name |-> nm, obj |-> Len(s.objs) + 1])]
Drop(s, nm) == [s EXCEPT !.map = SelectSeq(@, LAMBDA e : e.name # nm)]
Put(s, o, c) == [s EXCEPT !.objs[o].cred = c]
Res(s, r) == [s |-> s, r |-> r]     \* r: "t", "f" or "throw"
(* Effect and result of a call o = [op, n, p] *)
Call(dig, s, o) ==
  LET f == Find(s, o.n) IN
  CASE o.op = "add"  -> IF f # 0 THEN Res(s, "f") ELSE Res(Add(s, o.n, Pw(o.p)), "t")
    [] o.op = "upd"  -> IF f = 0 THEN Res(s, "f") ELSE Res(Put(s, f, Pw(o.p)), "t")
    [] o.op = "addh" -> IF f # 0 THEN Res(s, "f") ELSE IF GoodDigest(o.p) THEN Res(Add(s, o.n, Dg(o.p)), "t") ELSE Res(s, "throw")
    [] o.op = "updh" -> IF f = 0 THEN Res(s, "f") ELSE IF GoodDigest(o.p) THEN Res(Put(s, f, Dg(o.p)), "t") ELSE Res(s, "throw")
    [] o.op = "rem"  -> IF f = 0 THEN Res(s, "f") ELSE Res(Drop(s, o.n), "t")
    [] o.op = "get"  -> Res([s EXCEPT !.held = IF f # 0 THEN f ELSE s.held], IF f = 0 THEN "f" ELSE "t")
    [] o.op = "getp" -> Res(s, IF f # 0 /\ Opens(dig, s.objs[f].cred, o.p) THEN "t" ELSE "f")
    [] o.op = "empty" -> Res(s, IF s.map = << >> THEN "t" ELSE "f")
    \* the object obtained by the last successful get
    [] o.op = "held" -> Res(s, IF s.held # 0 /\ Opens(dig, s.objs[s.held].cred, o.p) THEN "t" ELSE "f")
    [] o.op = "hset" -> IF s.held = 0 THEN Res(s, "f") ELSE Res(Put(s, s.held, Pw(o.p)), "t")
    [] o.op = "hseth" -> IF s.held = 0 THEN Res(s, "f") ELSE IF GoodDigest(o.p) THEN Res(Put(s, s.held, Dg(o.p)), "t") ELSE Res(s, "throw")
=============================================================================
