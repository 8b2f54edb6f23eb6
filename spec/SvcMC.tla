-------------------------------- MODULE SvcMC -------------------------------
(* What the bundled cookie service may do with any name and value it is asked *)
(* to set, however they are spelled: a client spells them byte by byte, asks,  *)
(* and comes back with a cookie of that name.  Over every page the rules of    *)
(* Services.tla allow: no text of the request is markup, no header sent is     *)
(* more than one line or another cookie than was asked for, and the page says  *)
(* what was done.  Designs: sound; raw (text is not escaped), any (nothing is  *)
(* refused), strict (names that every client takes are refused).               *)
EXTENDS HttpServer
CONSTANTS Most, Design
VARIABLES n, v
Alphabet == {60, 34, 61, 59, 13, 10, 97, 38, 32, 127}
Init == n = << >> /\ v = << >>
Next == Len(n) + Len(v) < Most /\ \E x \in Alphabet : (n' = Append(n, x) /\ v' = v) \/ (v' = Append(v, x) /\ n' = n)
Spec == Init /\ [][Next]_<<n, v>>
Pair(a, b) == M!UrlEncode(a) \o <<61>> \o M!UrlEncode(b)
Query1(act, a, b) == Pair(SQAction, act) \o <<38>> \o Pair(SQName, a) \o <<38>> \o Pair(SQValue, b)
Runs(t) == [i \in 1..Len(t) |-> <<t[i], 1>>]
Ask(act, a, b, jar) == [q |-> Query1(act, a, b), h |-> << >>, b |-> << >>, m |-> SVGet, o |-> <<SLASH>>,
                        p |-> [h |-> IF jar = << >> THEN << >> ELSE << <<Runs(M!NCookie), Runs(jar)>> >>, vj |-> 1, vn |-> 1]]
Acts(q) == LET A == CookieActs(q) IN
  IF Design = "any" THEN {[t |-> SKAdded \o SvcEnc(n) \o <<61>> \o SvcEnc(v) \o SKEnd, c |-> <<n, v>>]}
  ELSE IF Design = "strict" THEN {[t |-> SKErrBad, c |-> << >>]}
  ELSE IF Design = "raw" THEN {IF Len(a.c) = 2 THEN [a EXCEPT !.t = SKAdded \o n \o <<61>> \o v \o SKEnd] ELSE a : a \in A}
  ELSE A
Text1(parts) == SvcFlat([i \in 1..Len(parts) |-> IF "x" \in DOMAIN parts[i] THEN parts[i].x ELSE SvcFlat(parts[i].o, 1)], 1)
HowMany(t, b) == Cardinality({i \in 1..Len(t) : t[i] = b})
Harmless(t) == [i \in 1..Len(t) |-> 97]
\* the same page had the name and the value been plain
Plainly(a) == IF a.c = << >> THEN a ELSE IF Len(a.c) = 2 THEN [a EXCEPT !.t = SKAdded \o Harmless(n) \o <<61>> \o Harmless(v) \o SKEnd] ELSE [a EXCEPT !.t = SKDeleted \o Harmless(n) \o SKEnd]
\* << >> when the bytes are no cookie header
JarOf(a, b) == IF a = << >> \/ ~SvcNoneOf(a, {61, 59, 32, 34, 13, 10, 127}) \/ ~SvcNoneOf(b, {34, 59, 13, 10, 127, 32}) THEN << >> ELSE a \o <<61>> \o b
\* the page carries nothing of the request as markup: tags and quotes are its own
NoMarkup == \A act \in {SVAdd, SVDelete, n} : LET q == Ask(act, n, v, JarOf(n, v)) q0 == Ask(act, n, v, JarOf(Harmless(n), Harmless(v))) IN
  \A a \in Acts(q) : LET p == Text1(CookiePage(q, <<SLASH>> \o v, a)) p0 == Text1(CookiePage(IF JarOf(n, v) = << >> THEN q ELSE q0, <<SLASH>> \o Harmless(v), Plainly(a))) IN
    HowMany(p, 60) = HowMany(p0, 60) /\ HowMany(p, 34) = HowMany(p0, 34)
\* what is sent as a cookie is one line
NoLines == \A act \in {SVAdd, SVDelete} : \A a \in Acts(Ask(act, n, v, << >>)) : \A t \in SentCookies(a) : SvcNoneOf(t, (0..31) \cup {127})
\* and says that name and value and nothing else
Exactly == \A act \in {SVAdd, SVDelete} : \A a \in Acts(Ask(act, n, v, << >>)) : \A t \in SentCookies(a) :
  LET r == M!Cookies(t, TRUE) IN r.ok /\ r.out = << <<n, IF act = SVAdd THEN v ELSE << >>>> >>
\* the page says what was done; what every client takes is done
Honest == \A act \in {SVAdd, SVDelete} : LET A == Acts(Ask(act, n, v, << >>)) IN A # {} /\ \A a \in A :
  /\ (a.c # << >>) = (StartsWith(a.t, SKAdded) \/ StartsWith(a.t, SKDeleted))
  /\ (GoodName(n) /\ GoodValue(v)) => a.c # << >>
  /\ (n = << >> \/ (act = SVAdd /\ v = << >>)) => a.c = << >>
=============================================================================
