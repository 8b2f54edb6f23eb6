------------------------------- MODULE ConfMC -------------------------------
(* A machine that reads a configuration byte by byte and acts at the end of  *)
(* every line does what the lines say, for every text over an alphabet with  *)
(* one byte of every kind.  Designs: sound; dropslast (the last line counts  *)
(* only with its newline), stale (the word of an earlier line is kept),      *)
(* keepsblanks (blanks before a value belong to it), trims (blanks after a   *)
(* value do not), crjoins (only a newline ends a comment), cased             *)
EXTENDS Conf
CONSTANTS Alphabet, MaxLen, Design
VARIABLES text, pc, cmd, word, val, out, bad
vars == <<text, pc, cmd, word, val, out, bad>>
VC == { <<118>> }  RC == { <<114>> }        \* v value   r word value
Init == text = << >> /\ pc = "line" /\ cmd = << >> /\ word = << >> /\ val = << >> /\ out = << >> /\ bad = FALSE
Low(b) == IF Design = "cased" THEN b ELSE ToLower(b)
Trim(v) == IF Design = "trims" /\ v # << >> /\ Blank(v[Len(v)]) THEN SubSeq(v, 1, Len(v) - 1) ELSE v
\* one byte: the next [pc, cmd, word, val, out, bad]
Move(m, b) ==
  CASE m.bad -> m
    [] m.pc = "line" -> IF b = 35 THEN [m EXCEPT !.pc = "comment"] ELSE IF IsAlpha(b) THEN [m EXCEPT !.pc = "cmd", !.cmd = <<Low(b)>>] ELSE IF Ends(b) THEN m ELSE [m EXCEPT !.bad = TRUE]
    [] m.pc = "cmd" -> IF Blank(b) THEN (IF m.cmd \in VC THEN [m EXCEPT !.pc = "val", !.val = << >>, !.word = << >>]
                                         ELSE IF m.cmd \in RC THEN [m EXCEPT !.pc = "word", !.word = IF Design = "stale" THEN @ ELSE << >>] ELSE [m EXCEPT !.bad = TRUE])
                       ELSE IF IsAlpha(b) THEN [m EXCEPT !.cmd = Append(@, Low(b))] ELSE [m EXCEPT !.bad = TRUE]
    [] m.pc = "word" -> IF Blank(b) THEN (IF m.word = << >> THEN m ELSE [m EXCEPT !.pc = "val", !.val = << >>]) ELSE IF Ends(b) THEN [m EXCEPT !.bad = TRUE] ELSE [m EXCEPT !.word = Append(@, b)]
    [] m.pc = "val" -> IF Ends(b) THEN (IF m.val = << >> THEN [m EXCEPT !.bad = TRUE] ELSE [m EXCEPT !.pc = "line", !.out = Append(@, <<m.cmd, m.word, Trim(m.val)>>), !.word = IF Design = "stale" THEN @ ELSE << >>])
                       ELSE IF Blank(b) /\ m.val = << >> /\ Design # "keepsblanks" THEN m ELSE [m EXCEPT !.val = Append(@, b)]
    [] m.pc = "comment" -> IF b = LF \/ (b = CR /\ Design # "crjoins") THEN [m EXCEPT !.pc = "line"] ELSE m
M0 == [pc |-> pc, cmd |-> cmd, word |-> word, val |-> val, out |-> out, bad |-> bad]
Next == /\ Len(text) < MaxLen
        /\ \E b \in Alphabet : LET m == Move(M0, b) IN text' = Append(text, b) /\ pc' = m.pc /\ cmd' = m.cmd /\ word' = m.word /\ val' = m.val /\ out' = m.out /\ bad' = m.bad
Spec == Init /\ [][Next]_vars
End == IF pc = "line" \/ Design = "dropslast" THEN M0 ELSE Move(M0, LF)
Agrees == LET p == Commands(text, VC, RC) IN End.bad = ~p.ok /\ (p.ok => End.out = [i \in 1..Len(p.cmds) |-> <<p.cmds[i].c, p.cmds[i].w, p.cmds[i].v>>])
=============================================================================
