------------------------------ MODULE Services -----------------------------
(***************************************************************************)
(* The bundled services: what each answers to a request.  A request is the   *)
(* record Asked gives in HttpServer.tla (q.p: as the parser left it).        *)
(* Dictionaries have no order: their terms may be written in any order.      *)
(***************************************************************************)
EXTENDS Writer
SXE1 == <<91,82,101,113,117,101,115,116,32,69,99,104,111,93,13,10,13,10,82,101,113,117,101,115,116,32,109,101,116,104,111,100,58,32>>
SXE2 == <<13,10,82,101,115,111,117,114,99,101,32,111,114,105,103,105,110,97,108,108,121,32,114,101,113,117,101,115,116,101,100,58,32>>
SXE3 == <<13,10,82,101,115,111,117,114,99,101,32,100,101,108,105,118,101,114,101,100,58,32>>
SXE4 == <<13,10,81,117,101,114,121,32,115,116,114,105,110,103,58,32>>
SXE5 == <<13,10,72,84,84,80,32,118,101,114,115,105,111,110,58,32>>
SXE6 == <<13,10,67,111,110,116,101,110,116,32,108,101,110,103,116,104,58,32>>
SXE7 == <<13,10,13,10,91,82,101,113,117,101,115,116,32,72,101,97,100,101,114,115,93,13,10,13,10>>
SXE8 == <<13,10,91,81,117,101,114,121,32,80,97,114,97,109,101,116,101,114,115,93,13,10,13,10>>
SXE9 == <<13,10,91,67,111,111,107,105,101,32,80,97,114,97,109,101,116,101,114,115,93,13,10,13,10>>
SXE10 == <<13,10,91,80,79,83,84,32,67,111,110,116,101,110,116,93,13,10,13,10>>
SXE11 == <<91,85,83,69,82,32,73,110,102,111,93,13,10,13,10,85,115,101,114,32,97,117,116,104,101,110,116,105,99,97,116,101,100,44,32,117,115,101,114,110,97,109,101,58,32>>
SCRLF == <<13,10>>
SColonSp == <<58,32>>
SK1 == <<60,104,116,109,108,62,10,60,104,101,97,100,62,10,60,116,105,116,108,101,62,67,111,111,107,105,101,32,83,101,114,118,105,99,101,60,47,116,105,116,108,101,62,10,60,47,104,101,97,100,62,10,60,98,111,100,121,62,10,10,60,104,49,62,67,111,111,107,105,101,32,83,101,114,118,105,99,101,60,47,104,49,62,10>>
SKErrAdd == <<10,60,112,62,91,69,114,114,111,114,58,32,89,111,117,32,109,117,115,116,32,115,112,101,99,105,102,121,32,97,32,110,97,109,101,32,97,110,100,32,118,97,108,117,101,32,116,111,32,97,100,100,32,97,32,99,111,111,107,105,101,93,60,47,112,62,10,10>>
SKAdded == <<10,60,112,62,91,65,100,100,101,100,32,99,111,111,107,105,101,32>>
SKEnd == <<93,60,47,112,62,10,10>>
SKErrDel == <<10,60,112,62,91,69,114,114,111,114,58,32,89,111,117,32,109,117,115,116,32,115,112,101,99,105,102,121,32,97,32,110,97,109,101,32,116,111,32,100,101,108,101,116,101,32,97,32,99,111,111,107,105,101,93,60,47,112,62,10,10>>
SKDeleted == <<10,60,112,62,91,68,101,108,101,116,101,100,32,99,111,111,107,105,101,32>>
SKErrBad == <<10,60,112,62,91,69,114,114,111,114,58,32,73,110,118,97,108,105,100,32,99,111,111,107,105,101,32,110,97,109,101,32,111,114,32,118,97,108,117,101,93,60,47,112,62,10,10>>
SKErrAct == <<10,60,112,62,91,69,114,114,111,114,58,32,85,110,114,101,99,111,103,110,105,122,101,100,32,97,99,116,105,111,110,93,60,47,112,62,10,10>>
SKHeads == <<10,60,104,50,62,67,111,111,107,105,101,32,72,101,97,100,101,114,115,60,47,104,50,62,10,60,117,108,62,10>>
SKLi == <<60,108,105,62,67,111,111,107,105,101,58,32>>
SKUl == <<60,47,117,108,62,10,10>>
SKNoHeads == <<10,60,104,50,62,78,111,32,67,111,111,107,105,101,32,72,101,97,100,101,114,115,60,47,104,50,62,10,10>>
SKVars == <<10,60,104,50,62,67,111,111,107,105,101,32,86,97,114,105,97,98,108,101,115,60,47,104,50,62,10,60,117,108,62,10>>
SKItem == <<60,108,105,62>>
SKHref == <<32,60,97,32,104,114,101,102,61,34>>
SKDel == <<63,97,99,116,105,111,110,61,100,101,108,101,116,101,38,99,111,111,107,105,101,95,110,97,109,101,61>>
SKDel2 == <<34,62,91,68,101,108,101,116,101,93,60,47,97,62,10>>
SKNoVars == <<10,60,104,50,62,78,111,32,67,111,111,107,105,101,32,86,97,114,105,97,98,108,101,115,60,47,104,50,62,10,10>>
SKForm == <<10,60,104,50,62,65,100,100,32,67,111,111,107,105,101,60,47,104,50,62,10,60,112,62,60,102,111,114,109,32,97,99,116,105,111,110,61,34>>
SKForm2 == <<34,32,109,101,116,104,111,100,61,34,80,79,83,84,34,62,10,78,97,109,101,58,32,60,105,110,112,117,116,32,116,121,112,101,61,34,116,101,120,116,34,32,110,97,109,101,61,34,99,111,111,107,105,101,95,110,97,109,101,34,62,60,98,114,32,47,62,10,86,97,108,117,101,58,32,60,105,110,112,117,116,32,116,121,112,101,61,34,116,101,120,116,34,32,110,97,109,101,61,34,99,111,111,107,105,101,95,118,97,108,117,101,34,62,60,98,114,32,47,62,10,60,105,110,112,117,116,32,116,121,112,101,61,34,115,117,98,109,105,116,34,32,110,97,109,101,61,34,97,99,116,105,111,110,34,32,118,97,108,117,101,61,34,65,100,100,32,67,111,111,107,105,101,34,62,60,47,112,62,10,60,47,102,111,114,109,62,10,10,10,60,47,98,111,100,121,62,10,60,47,104,116,109,108,62,10>>
SHello == <<60,104,116,109,108,62,60,98,111,100,121,62,72,101,108,108,111,32,87,111,114,108,100,33,60,47,98,111,100,121,62,60,47,104,116,109,108,62,13,10,13,10>>
SDeny == <<60,104,116,109,108,62,60,98,111,100,121,62,78,111,44,32,121,111,117,32,99,97,110,39,116,46,60,47,98,111,100,121,62,60,47,104,116,109,108,62,13,10,13,10>>
SLogOff == <<76,111,103,103,105,110,103,32,105,115,32,100,105,115,97,98,108,101,100,46,13,10>>
SLogText == <<85,115,105,110,103,32,111,115,116,114,101,97,109,32,108,111,103,103,105,110,103,46,13,10>>
SQAction == <<97,99,116,105,111,110>>
SQName == <<99,111,111,107,105,101,95,110,97,109,101>>
SQValue == <<99,111,111,107,105,101,95,118,97,108,117,101>>
SVAdd == <<65,100,100,32,67,111,111,107,105,101>>
SVDelete == <<100,101,108,101,116,101>>
SVText == <<116,101,120,116,47,112,108,97,105,110>>
SVHtml == <<116,101,120,116,47,104,116,109,108>>
SNAllow == <<97,108,108,111,119>>
SVGet == <<71,69,84>>
SVMulti == <<109,117,108,116,105,112,97,114,116,47,102,111,114,109,45,100,97,116,97>>

SvcKinds == {69, 75, 72, 78, 76}      \* E echo, K cookie, H hello, N allow-nothing, L log
RECURSIVE SvcFlat(_,_), SvcAnyOrder(_,_)
SvcFlat(ts, i) == IF i > Len(ts) THEN << >> ELSE ts[i] \o SvcFlat(ts, i + 1)
SvcMinus(ts, i) == SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))
\* t is made of the pieces ts, in some order
SvcAnyOrder(t, ts) == IF ts = << >> THEN t = << >>
                   ELSE \E i \in 1..Len(ts) : /\ \A j \in 1..(i - 1) : ts[j] # ts[i]
                                              /\ StartsWith(t, ts[i]) /\ SvcAnyOrder(SubSeq(t, Len(ts[i]) + 1, Len(t)), SvcMinus(ts, i))
\* t is made of the parts: a part is [x |-> text] or [o |-> pieces in any order]
RECURSIVE SvcMade(_,_,_)
SvcMade(t, parts, i) ==
  IF i > Len(parts) THEN t = << >>
  ELSE IF "x" \in DOMAIN parts[i] THEN StartsWith(t, parts[i].x) /\ SvcMade(SubSeq(t, Len(parts[i].x) + 1, Len(t)), parts, i + 1)
  ELSE LET n == Len(SvcFlat(parts[i].o, 1)) IN n <= Len(t) /\ SvcAnyOrder(SubSeq(t, 1, n), parts[i].o) /\ SvcMade(SubSeq(t, n + 1, Len(t)), parts, i + 1)
SvcText(t) == [x |-> t]
SvcTexts(ts) == [o |-> ts]

(* ------------------------ what came with a request --------------------- *)
AllHeaders(q) == [i \in 1..Len(q.p.h) |-> <<RExpand(q.p.h[i][1]), RExpand(q.p.h[i][2])>>]
ContentType(q) == LET V == M!DGets(q.h, M!CONTENT_TYPE) IN CHOOSE v \in V : TRUE
FormOf(q) == LET ct == ContentType(q) b == RExpand(q.b) IN
  IF StartsWith(ct, M!VUrlEncoded) THEN M!UrlForm(b) ELSE IF StartsWith(ct, SVMulti) THEN M!Multipart(ct, b) ELSE [ok |-> TRUE, out |-> << >>]
SvcParams(q) == LET u == M!UrlForm(q.q) f == FormOf(q) IN [ok |-> u.ok /\ f.ok, out |-> u.out \o f.out]
CookieLines(q) == LET H == AllHeaders(q)  Is(e) == SLower(e[1]) = M!NCookie  S == SelectSeq(H, Is) IN [i \in 1..Len(S) |-> S[i][2]]
RECURSIVE SvcBaked(_,_)
SvcBaked(cs, i) == IF i > Len(cs) THEN [ok |-> TRUE, out |-> << >>] ELSE LET a == M!Cookies(cs[i], FALSE) r == SvcBaked(cs, i + 1) IN [ok |-> a.ok /\ r.ok, out |-> a.out \o r.out]
SvcJar(q) == SvcBaked(CookieLines(q), 1)
SvcValues(ps, n) == {ps[i][2] : i \in {j \in 1..Len(ps) : SLower(ps[j][1]) = n}}
SvcValue(ps, n) == IF SvcValues(ps, n) = {} THEN {<< >>} ELSE SvcValues(ps, n)

(* --------------------------------- echo -------------------------------- *)
SvcTerms(ps) == [i \in 1..Len(ps) |-> ps[i][1] \o SColonSp \o ps[i][2] \o SCRLF]
EchoPage(q, vis, user) ==
  LET b == RExpand(q.b) IN
  << SvcText(SXE1 \o q.m \o SXE2 \o q.o \o SXE3 \o vis \o SXE4 \o q.q \o SXE5 \o M!DigitsOf(q.p.vj) \o <<46>> \o M!DigitsOf(q.p.vn) \o SXE6 \o M!DigitsOf(Len(b)) \o SXE7),
     SvcTexts(SvcTerms(AllHeaders(q))), SvcText(SXE8), SvcTexts(SvcTerms(SvcParams(q).out)), SvcText(SXE9), SvcTexts(SvcTerms(SvcJar(q).out)), SvcText(SXE10),
     SvcText(IF b = << >> THEN << >> ELSE b \o SCRLF \o SCRLF), SvcText(IF user = << >> THEN << >> ELSE SXE11 \o user[1] \o SCRLF) >>

(* -------------------------------- cookies ------------------------------ *)
SvcEnc(t) == M!XmlEncode(t)
SvcGraphic(t) == \A i \in 1..Len(t) : t[i] > 32 /\ t[i] < 127
SvcNoneOf(t, S) == \A i \in 1..Len(t) : t[i] \notin S
\* names and values every client takes, and those no client may be sent
GoodName(n) == n # << >> /\ SvcGraphic(n) /\ SvcNoneOf(n, {34, 36, 39, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 123, 125})
GoodValue(v) == v # << >> /\ SvcGraphic(v) /\ SvcNoneOf(v, {34, 39, 44, 59, 92})
WrongName(n) == n = << >> \/ ~SvcNoneOf(n, (0..31) \cup {32, 34, 39, 44, 59, 61, 127})
WrongValue(v) == v = << >> \/ ~SvcNoneOf(v, (0..31) \cup {34, 127})
\* possible outcomes of the action asked for: text on the page, cookie sent: << >>, <<name, value>> or <<name>> (withdrawn)
CookieActs(q) ==
  LET P == SvcParams(q).out  A == SvcValues(P, SQAction) IN
  IF A = {} THEN {[t |-> << >>, c |-> << >>]}
  ELSE UNION {
    IF a = SVAdd THEN UNION {
      LET no == IF n = << >> \/ v = << >> THEN {[t |-> SKErrAdd, c |-> << >>]} ELSE IF GoodName(n) /\ GoodValue(v) THEN {} ELSE {[t |-> SKErrAdd, c |-> << >>], [t |-> SKErrBad, c |-> << >>]}
          yes == IF WrongName(n) \/ WrongValue(v) THEN {} ELSE {[t |-> SKAdded \o SvcEnc(n) \o <<61>> \o SvcEnc(v) \o SKEnd, c |-> <<n, v>>]}
      IN no \cup yes : n \in SvcValue(P, SQName), v \in SvcValue(P, SQValue)}
    ELSE IF a = SVDelete THEN UNION {
      LET no == IF n = << >> THEN {[t |-> SKErrDel, c |-> << >>]} ELSE IF GoodName(n) THEN {} ELSE {[t |-> SKErrDel, c |-> << >>], [t |-> SKErrBad, c |-> << >>]}
          yes == IF WrongName(n) THEN {} ELSE {[t |-> SKDeleted \o SvcEnc(n) \o SKEnd, c |-> <<n>>]}
      IN no \cup yes : n \in SvcValue(P, SQName)}
    ELSE {[t |-> SKErrAct, c |-> << >>]} : a \in A}
CookiePage(q, vis, act) ==
  LET L == CookieLines(q)  J == SvcJar(q).out  res == SvcEnc(vis) IN
  << SvcText(SK1 \o act.t), SvcText(IF L = << >> THEN SKNoHeads ELSE SKHeads), SvcTexts([i \in 1..Len(L) |-> SKLi \o SvcEnc(L[i]) \o <<10>>]), SvcText(IF L = << >> THEN << >> ELSE SKUl),
     SvcText(IF J = << >> THEN SKNoVars ELSE SKVars),
     SvcTexts([i \in 1..Len(J) |-> SKItem \o SvcEnc(J[i][1]) \o SColonSp \o SvcEnc(J[i][2]) \o SKHref \o res \o SKDel \o M!UrlEncode(J[i][1]) \o SKDel2]),
     SvcText(IF J = << >> THEN << >> ELSE SKUl), SvcText(SKForm \o res \o SKForm2) >>
\* the Set-Cookie headers an outcome stands for
SentCookies(act) == IF act.c = << >> THEN {} ELSE IF Len(act.c) = 2 THEN {M!SetCookie(act.c[1], act.c[2], <<SLASH>>, << >>)} ELSE {M!SetCookie(act.c[1], << >>, <<SLASH>>, M!Zero0)}

(* ------------------------------ the answer ----------------------------- *)
\* h: headers of the response; head: no content is to be seen
SvcAnswer(k, q, vis, user, h, body, head) ==
  LET Type(t) == M!DVals(h, M!CONTENT_TYPE) = {t}
      Page(parts) == head \/ SvcMade(body, parts, 1)
      NoCookie == ~M!DHas(h, M!NSetCookie)
      okp == SvcParams(q).ok  okc == SvcJar(q).ok IN
  CASE k = 69 -> NoCookie /\ Type(SVText) /\ (okp /\ okc => Page(EchoPage(q, vis, user)))
    [] k = 75 -> Type(SVHtml) /\ (okp /\ okc => \E a \in CookieActs(q) : M!DVals(h, M!NSetCookie) = SentCookies(a) /\ M!DCount(h, M!NSetCookie) = Cardinality(SentCookies(a)) /\ Page(CookiePage(q, vis, a)))
    [] k = 72 -> NoCookie /\ Page(<<SvcText(SHello)>>)
    [] k = 78 -> NoCookie /\ M!DVals(h, SNAllow) = {SVGet} /\ Page(<<SvcText(SDeny)>>)
    [] k = 76 -> NoCookie /\ Type(SVText) /\ (Page(<<SvcText(SLogText)>>) \/ Page(<<SvcText(SLogOff)>>))
SvcStatus(k) == IF k = 78 THEN 405 ELSE 200
SvcHeaders == {M!NConnection, M!NContentLength, M!CONTENT_TYPE, M!NSetCookie, SNAllow, M!NTransferEncoding}
=============================================================================
