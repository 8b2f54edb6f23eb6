-------------------------------- MODULE Conf --------------------------------
(* The lines of a service configuration file.  A line ends at a carriage     *)
(* return, a newline or the end of the file; a line that is empty or begins  *)
(* with a number sign says nothing; any other line is a command of letters,  *)
(* blanks, for some commands a word and blanks, and a value that is the rest *)
(* of the line.  vc, rc: the commands without and with a word.               *)
EXTENDS Bytes
Blank(b) == b \in {SP, HT}
Ends(b) == b \in {CR, LF}
RECURSIVE LinesFrom(_,_,_)
LinesFrom(t, i, acc) == IF i > Len(t) THEN <<acc>> ELSE IF Ends(t[i]) THEN <<acc>> \o LinesFrom(t, i + 1, << >>) ELSE LinesFrom(t, i + 1, Append(acc, t[i]))
Lines(t) == LinesFrom(t, 1, << >>)
RECURSIVE Upto(_,_)      \* number of leading bytes of l that are not blank
Upto(l, i) == IF i > Len(l) \/ Blank(l[i]) THEN i - 1 ELSE Upto(l, i + 1)
RECURSIVE Unblank(_)
Unblank(l) == IF l # << >> /\ Blank(Head(l)) THEN Unblank(Tail(l)) ELSE l
Word(l) == SubSeq(l, 1, Upto(l, 1))
Rest(l) == SubSeq(l, Upto(l, 1) + 1, Len(l))
\* a line: [say: it says something, ok, c: command, w: word, v: value]
Line(l, vc, rc) ==
  IF l = << >> \/ l[1] = 35 THEN [say |-> FALSE, ok |-> TRUE, c |-> << >>, w |-> << >>, v |-> << >>]
  ELSE LET c == SLower(Word(l))  more == Unblank(Rest(l))
           w == IF c \in rc THEN Word(more) ELSE << >>
           v == IF c \in rc THEN Unblank(Rest(more)) ELSE more
       IN [say |-> TRUE, ok |-> (\A i \in 1..Len(Word(l)) : IsAlpha(l[i])) /\ c \in vc \cup rc /\ v # << >>, c |-> c, w |-> w, v |-> v]
Commands(t, vc, rc) == LET all == [i \in 1..Len(Lines(t)) |-> Line(Lines(t)[i], vc, rc)]  Says(x) == x.say
                       IN [ok |-> \A i \in 1..Len(all) : all[i].ok, cmds |-> SelectSeq(all, Says)]
=============================================================================
