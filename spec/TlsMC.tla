------------------------------- MODULE TlsMC --------------------------------
(* What a server behind TLS must not do, whatever a client sends: a client   *)
(* sends pieces, in any order: hello and fin (its part of the handshake), a  *)
(* record (a request), the first part of a record, the rest of it, junk      *)
(* (also: an altered record), its end. The server takes them one by one.     *)
(* Designs: sound; early (the connection is served when it is accepted),     *)
(* fallback (what is not TLS is served as it is), kept (a failed handshake   *)
(* stays in the pool), eager (the part of a record that came is served),     *)
(* skips (a bad record is left out), clear (answers bypass TLS), half        *)
(* (hello is enough)                                                         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Conns, Most, Design
VARIABLES wire, sent, st, pool, served, answers
vars == <<wire, sent, st, pool, served, answers>>
Pieces == {"hello", "fin", "record", "part", "rest", "junk", "end"}
Init == wire = [c \in Conns |-> << >>] /\ sent = [c \in Conns |-> << >>] /\ st = [c \in Conns |-> "new"] /\ pool = {} /\ served = [c \in Conns |-> 0] /\ answers = [c \in Conns |-> << >>]
Accept(c) == st[c] = "new" /\ st' = [st EXCEPT ![c] = IF Design = "early" THEN "up" ELSE "hello"] /\ pool' = pool \cup {c} /\ UNCHANGED <<wire, sent, served, answers>>
Send(c) == \E p \in Pieces :
  /\ Len(sent[c]) < Most /\ (sent[c] # << >> => sent[c][Len(sent[c])] # "end")
  /\ sent' = [sent EXCEPT ![c] = Append(@, p)] /\ wire' = [wire EXCEPT ![c] = Append(@, p)] /\ UNCHANGED <<st, pool, served, answers>>
Drop(c) == st' = [st EXCEPT ![c] = "over"] /\ pool' = (IF Design = "kept" /\ st[c] \in {"hello", "fin"} THEN pool ELSE pool \ {c}) /\ UNCHANGED <<served, answers>>
Serve(c, to) == st' = [st EXCEPT ![c] = to] /\ served' = [served EXCEPT ![c] = @ + 1] /\ answers' = [answers EXCEPT ![c] = Append(@, IF Design = "clear" \/ to = "bare" THEN "bare" ELSE "tls")] /\ UNCHANGED pool
To(c, s) == st' = [st EXCEPT ![c] = s] /\ UNCHANGED <<pool, served, answers>>
Take(c) ==
  /\ st[c] \notin {"new", "over"} /\ wire[c] # << >> /\ wire' = [wire EXCEPT ![c] = Tail(@)] /\ UNCHANGED sent
  /\ LET p == Head(wire[c]) s == st[c] IN
     CASE s = "hello" -> IF p = "hello" THEN To(c, IF Design = "half" THEN "up" ELSE "fin") ELSE IF p = "junk" /\ Design = "fallback" THEN Serve(c, "bare") ELSE Drop(c)
       [] s = "fin" -> IF p = "fin" THEN To(c, "up") ELSE Drop(c)
       [] s = "bare" -> IF p = "end" THEN Drop(c) ELSE Serve(c, "bare")
       [] s = "up" -> IF p = "record" THEN Serve(c, "up") ELSE IF p = "part" THEN (IF Design = "eager" THEN Serve(c, "in") ELSE To(c, "in")) ELSE IF p = "junk" /\ Design = "skips" THEN To(c, "up") ELSE Drop(c)
       [] s = "in" -> IF p = "rest" THEN (IF Design = "eager" THEN To(c, "up") ELSE Serve(c, "up")) ELSE Drop(c)
Next == \E c \in Conns : Accept(c) \/ Send(c) \/ Take(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Conns : WF_vars(Take(c)) /\ WF_vars(Accept(c))
\* the requests a client really made: whole records, in one unbroken run after the handshake
RECURSIVE Made(_,_)
Made(w, k) == IF w = << >> THEN k ELSE IF w[1] = "record" THEN Made(Tail(w), k + 1) ELSE IF Len(w) >= 2 /\ w[1] = "part" /\ w[2] = "rest" THEN Made(SubSeq(w, 3, Len(w)), k + 1) ELSE k
Requests(c) == IF Len(sent[c]) >= 2 /\ sent[c][1] = "hello" /\ sent[c][2] = "fin" THEN Made(SubSeq(sent[c], 3, Len(sent[c])), 0) ELSE 0
OnlyRequests == \A c \in Conns : served[c] <= Requests(c)
NothingBare == \A c \in Conns : \A i \in 1..Len(answers[c]) : answers[c][i] = "tls"
Pool == pool = {c \in Conns : st[c] \notin {"new", "over"}}
AllServed == <>[](\A c \in Conns : served[c] = Requests(c))
=============================================================================
