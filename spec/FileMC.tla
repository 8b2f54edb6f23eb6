------------------------------- MODULE FileMC ------------------------------
(* Two decisions of FileService.tla on their own.  Paths: every path a       *)
(* request can spell with the given names leads below the directory or is    *)
(* refused, and no file of the directory is refused; the file system is      *)
(* walked name by name.  Copies: a program changes a file, the clock ticks   *)
(* (a file's time may be a second behind), and the service answers from a    *)
(* copy it trusts or from the file.                                          *)
EXTENDS FileService
CONSTANTS Length, Steps, Design
A == <<97>>  B == <<98>>  AB == <<97, 98>>
DirPath == <<B, A>>           \* the directory served; beside it there is a directory with a longer name
Alphabet == {A, B, AB, Dotted, Up, << >>}
VARIABLES path, cur,      \* names of the request, where the walk is
          now, file, copy, answer, k
vars == <<path, cur, now, file, copy, answer, k>>
Init == path = << >> /\ cur = DirPath /\ now = 10 /\ file = [c |-> << <<1, 1>> >>, t |-> 0] /\ copy = << >> /\ answer = << >> /\ k = 0
\* the walk, one name at a time
Name == /\ Len(path) < Length /\ k = 0 /\ \E n \in Alphabet : path' = Append(path, n)
             /\ cur' = (IF n \in {<< >>, Dotted} THEN cur ELSE IF n = Up THEN (IF cur = << >> THEN cur ELSE Front(cur)) ELSE Append(cur, n))
        /\ UNCHANGED <<now, file, copy, answer, k>>
Allowed == LET w == Walk(DirPath, path, 1, Len(DirPath)) IN
           IF Design = "strings" THEN StartsWith(Join(w.p), Join(DirPath)) ELSE Within(DirPath, w.p)
Inside(p) == Len(p) >= 2 /\ p[1] = B /\ p[2] = A
Contained == Allowed <=> Inside(cur)
\* copies
Good(g) == CASE Design = "unsure" -> g.t = file.t /\ RLen(g.c) = RLen(file.c)
             [] Design = "exact" -> g.t = file.t /\ RLen(g.c) = RLen(file.c) /\ g.t < g.at
             [] Design = "times" -> g.t <= file.t /\ g.t < g.at - 1
             [] OTHER -> Trusted(g, [c |-> file.c, t |-> file.t])
Turn == path = << >> /\ k < Steps /\ k' = k + 1 /\ UNCHANGED <<path, cur>>
Change == Turn /\ \E b \in 1..2, late \in 0..1 : file' = [c |-> << <<b, 1>> >>, t |-> now - late] /\ answer' = << >> /\ UNCHANGED <<now, copy>>
Tick == Turn /\ now' = now + 1 /\ answer' = << >> /\ UNCHANGED <<file, copy>>
Ask == Turn /\ copy' = (IF copy # << >> /\ Good(copy[1]) THEN copy ELSE <<[c |-> file.c, t |-> file.t, at |-> now]>>) /\ answer' = copy'[1].c /\ UNCHANGED <<now, file>>
Next == Name \/ Change \/ Tick \/ Ask
Spec == Init /\ [][Next]_vars
Fresh == answer # << >> => answer = file.c
=============================================================================
