------------------------------ MODULE FormsMC ------------------------------
(* A writer builds a name and a value byte by byte and sends them together   *)
(* with a fixed neighbour; the readers must give both back.                  *)
EXTENDS Forms
CONSTANTS Alphabet, MaxLen, Which
VARIABLES a, b
vars == <<a, b>>
Init == a = << >> /\ b = << >>
Next == \/ Len(a) + Len(b) < MaxLen /\ \E x \in Alphabet : (a' = Append(a, x) /\ b' = b) \/ (b' = Append(b, x) /\ a' = a)
Spec == Init /\ [][Next]_vars
Other == <<<<110>>, <<49, 44, 38>>>>
NoNul(s) == \A i \in 1..Len(s) : s[i] # 0
QueryBack == (Which = "url" /\ a # << >> /\ NoNul(a) /\ NoNul(b)) =>
  /\ LET r == UrlForm(QueryText(<< <<a, b>>, Other >>, 1)) IN r.ok /\ r.out = << <<a, b>>, Other >>
  /\ LET r == UrlForm(QueryText(<< Other, <<a, b>> >>, 1)) IN r.ok /\ r.out = << Other, <<a, b>> >>
\* whatever is read, reading never invents more pairs than there are separators
QueryBound == Which = "url" => LET r == UrlForm(a \o b) IN
  Len(r.out) <= 1 + Cardinality({i \in 1..Len(a \o b) : (a \o b)[i] \in {AMP, COMMA}})
CkName(s) == s # << >> /\ s[1] # DOLLAR /\ \A i \in 1..Len(s) : s[i] \notin {EQ, SEMI, COMMA, SP} /\ ~IsControl(s[i])
CkVal(s) == \A i \in 1..Len(s) : s[i] # DQUOTE
CookieBack == (Which = "cookie" /\ CkName(a) /\ CkVal(b)) =>
  \A p \in {<< >>, <<SLASH>>} : \A g \in {<< >>, <<48>>} :
    LET r == Cookies(SetCookie(a, b, p, g), TRUE) IN r.ok /\ r.out = << <<a, b>> >>
Delim == <<DASH, DASH, 98>>
NoDelim(s) == FindFrom(Delim, s \o <<CR, LF>>, 1) = 0
MultiBack == (Which = "mp" /\ NoDelim(b) /\ a # << >> /\ \A i \in 1..Len(a) : a[i] \notin {CR, LF, DQUOTE}) =>
  \A ty \in {<< >>, <<116,101,120,116,47,120>>, <<97,47,98>>} :
    LET r == Multipart(TBoundary \o <<98>>, MpText(<< <<a, ty, b>>, <<<<110>>, << >>, << >>>> >>, Delim))
    IN r.ok /\ r.out = << <<a, IF ty = <<97,47,98>> THEN DataString(ty, b) ELSE b>>, <<<<110>>, << >>>> >>
=============================================================================
