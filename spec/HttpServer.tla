----------------------------- MODULE HttpServer ----------------------------
(***************************************************************************)
(* An HTTP server: tables of resources, redirects, restrictions and users,  *)
(* sessions, and connections whose bytes are cut into requests that are     *)
(* answered in order, one at a time.                                        *)
(*                                                                          *)
(* The clients' side of a history (connections, bytes, the calls that set   *)
(* the tables up) is the input.  For every input Step gives the next state  *)
(* and judges what the server did meanwhile: handler calls, bytes returned  *)
(* on the connection, connection closed, number of open connections.        *)
(***************************************************************************)
EXTENDS Services
MAX_REDIRECTS == 10
SESSION_IDLE  == 3600
DEFAULT_MAX   == 1048576
NAuthorization == <<97,117,116,104,111,114,105,122,97,116,105,111,110>>
NAuthenticate  == <<119,119,119,45,97,117,116,104,101,110,116,105,99,97,116,101>>
NLocation      == <<108,111,99,97,116,105,111,110>>
VBasic         == <<66,97,115,105,99,32>>
VRealm         == <<114,101,97,108,109,61>>
NSession       == <<112,105,111,110,95,115,101,115,115,105,111,110,95,105,100>>
QUser == <<117,115,101,114>>   QPass == <<112,97,115,115>>   QUrl == <<117,114,108>>
TNF == <<78,70>>  TBR == <<66,82>>  TSE == <<83,69>>

(* ------------------------------- tables -------------------------------- *)
Strip(r) == IF r # << >> /\ r[Len(r)] = SLASH THEN SubSeq(r, 1, Len(r) - 1) ELSE r
\* resource r belongs to the tree called name
Under(name, r) == StartsWith(r, name) /\ (Len(r) = Len(name) \/ r[Len(name) + 1] = SLASH)
InTree(set, r) == \E i \in 1..Len(set) : Under(set[i], r)
\* index of the longest resource that r belongs to, or 0
Route(res, r) ==
  LET S == {i \in 1..Len(res) : Under(res[i].n, r)}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : Len(res[j].n) <= Len(res[i].n)
RECURSIVE Follow(_,_,_)
Follow(red, r, k) ==
  LET S == {i \in 1..Len(red) : red[i][1] = r}
  IN IF S = {} THEN [ok |-> TRUE, r |-> r, k |-> k]
     ELSE IF k = MAX_REDIRECTS THEN [ok |-> FALSE, r |-> r, k |-> k]
     ELSE Follow(red, red[CHOOSE i \in S : TRUE][2], k + 1)
SetUser(us, a, b) == [i \in 1..Len(us) |-> IF us[i].n = a THEN [n |-> a, p |-> b] ELSE us[i]]
HasUser(us, a) == \E i \in 1..Len(us) : us[i].n = a

(* ----------------------------- connections ----------------------------- *)
RECURSIVE RDropFrom(_,_,_)
RDropFrom(w, n, i) == IF i > Len(w) THEN << >> ELSE IF n >= w[i][2] THEN RDropFrom(w, n - w[i][2], i + 1)
                      ELSE << <<w[i][1], w[i][2] - n>> >> \o SubSeq(w, i + 1, Len(w))
RDrop(w, n) == RDropFrom(w, n, 1)
Feed(o, w) == Parse(NewParser(o), w, 1, IF w = << >> THEN 0 ELSE w[1][2])
ReadRequest(w, max) == Feed([isreq |-> TRUE, max |-> max, pay |-> FALSE, honly |-> FALSE, head |-> FALSE], w)
\* one response off the bytes w; closed: no more will come
ReadResponse(w, head, closed) ==
  LET p0 == Feed([isreq |-> FALSE, max |-> 100000000, pay |-> FALSE, honly |-> FALSE, head |-> head], w)
      p == IF p0.v = "more" /\ closed THEN Finish(p0) ELSE p0
  IN [ok |-> p0.v = "ok" \/ (p0.v = "more" /\ closed /\ p0.ms = "NO_LENGTH"), n |-> p0.n, sc |-> p.sc,
      h |-> [i \in 1..Len(p.h) |-> <<SLower(RExpand(p.h[i][1])), RExpand(p.h[i][2])>>], body |-> RExpand(p.body), rbody |-> p.body]
KeepsAlive(h) == \A v \in M!DGets(h, M!NConnection) : SLower(v) # M!VClose
RequestHeaders(p) == [i \in 1..Len(p.h) |-> <<SLower(RExpand(p.h[i][1])), RExpand(p.h[i][2])>>]
\* what a client asks for
Asked(p) == LET h == RequestHeaders(p)
                ka == TRUE \in M!KeepAlives([h |-> h, vj |-> p.vj, vn |-> p.vn])
            IN [m |-> RExpand(p.m), o |-> RExpand(p.r), q |-> RExpand(p.q), b |-> p.body, h |-> h, ka |-> ka,
                sup |-> p.vj = 1 /\ p.vn >= 1, p |-> p, head |-> RExpand(p.m) = M!THead]

(* ---------------------------- authentication --------------------------- *)
Queries(q) == LET f == M!UrlForm(q.q) IN M!Lowered(f.out)
OneOf(S) == CHOOSE x \in S : TRUE
Query(q, n) == OneOf(M!DGets(Queries(q), n))
CookieOf(q) ==
  LET v == OneOf(M!DGets(q.h, M!NCookie))
      cs == M!Cookies(v, FALSE).out
      S == {i \in 1..Len(cs) : SLower(cs[i][1]) = NSession}
  IN IF S = {} THEN << >> ELSE cs[OneOf(S)][2]
Needed(s, r) == s.users # << >> /\ InTree(s.restrict, Strip(r)) /\ ~InTree(s.permit, Strip(r))
Session(s, c) == {i \in 1..Len(s.sess) : s.sess[i].c = c /\ c # << >>}
\* a session that must be honoured, one that may be, and its user
Live(s, c) == \E i \in Session(s, c) : ~s.sess[i].stale /\ s.now - s.sess[i].t <= SESSION_IDLE
MayLive(s, c) == \E i \in Session(s, c) : s.now - s.sess[i].t <= 2 * SESSION_IDLE
\* user name and password of an Authorization header: [ok, may: a server might accept it, n, p]
Credentials(q) ==
  LET v == OneOf(M!DGets(q.h, NAuthorization))
      sch == Len(v) > 6 /\ SLower(SubSeq(v, 1, 6)) = SLower(VBasic)
      t == SubSeq(v, 7, Len(v))
      wf == sch /\ M!B64WellFormed(t)
      b == IF wf THEN M!B64Bytes(t) ELSE << >>
      c == FindFrom(<<COLON>>, b, 1)
  IN IF ~wf \/ c <= 1 THEN [ok |-> FALSE, may |-> FALSE, n |-> << >>, p |-> << >>]
     ELSE [ok |-> SubSeq(v, 1, 6) = VBasic /\ M!B64Canonical(t), may |-> TRUE, n |-> SubSeq(b, 1, c - 1), p |-> SubSeq(b, c + 1, Len(b))]
Matches(s, n, p) == \E i \in 1..Len(s.users) : s.users[i] = [n |-> n, p |-> p]
\* who the client is: [must, may, u]
Identity(s, q) ==
  IF s.auth = "basic" THEN LET c == Credentials(q) v == Matches(s, c.n, c.p) IN [must |-> c.ok /\ v, may |-> c.may /\ v, u |-> c.n]
  ELSE IF s.auth = "cookie" THEN LET c == CookieOf(q) IN [must |-> Live(s, c), may |-> MayLive(s, c), u |-> IF MayLive(s, c) THEN s.sess[OneOf(Session(s, c))].u ELSE << >>]
  ELSE [must |-> FALSE, may |-> FALSE, u |-> << >>]

(* ------------------------- judging one exchange ------------------------ *)
\* st: the state; calls, d: handler calls and response bytes not yet accounted for; e: the connection ended
Bad(why) == [why |-> why]
Has(x) == "why" \in DOMAIN x
Text(tag, k) == tag \o <<35>> \o M!DigitsOf(k)
\* the response rs ends the exchange on connection c; the connection lives on if ka
After(x, c, rs, ka) ==
  IF KeepsAlive(rs.h) # ka THEN Bad("Connection header")
  ELSE [x EXCEPT !.d = RDrop(@, rs.n), !.s.conns[c].st = IF ka THEN "open" ELSE "closed", !.s.conns[c].max = x.s.max]
Plain(x, c, rs, ka, code, text) ==   \* a response with the given status and content (<<>>: any)
  IF ~rs.ok THEN Bad("no complete response")
  ELSE IF rs.sc # code THEN Bad("status of the response")
  ELSE IF text # << >> /\ rs.body # text THEN Bad("content of the response")
  ELSE After(x, c, rs, ka)
SameCall(a, tag, q, vis, users) ==
  /\ a.t = tag /\ a.m = q.m /\ a.o = q.o /\ a.r = vis /\ a.q = q.q /\ a.b = q.b /\ a.u \in users
Took(x) == [x EXCEPT !.calls = Tail(@), !.s.n = @ + 1]
Custom(x, c, q, head, ka, tag, code, msg) ==   \* the handler called tag answers
  IF x.calls = << >> THEN Bad("handler not called: an error handler")
  ELSE IF x.calls[1].t # tag THEN Bad("wrong handler")
  ELSE IF msg # << >> /\ FindFrom(msg, x.calls[1].x, 1) = 0 THEN Bad("message for the error handler")
  ELSE Plain(Took(x), c, ReadResponse(x.d, head, x.e), ka, code, IF head THEN << >> ELSE Text(tag, x.s.n + 1))
\* content of built-in error pages never repeats the request's markup
Reflects(body, r) == (\E i \in 1..Len(r) : r[i] \in {60, 62}) /\ FindFrom(r, body, 1) # 0
BuiltIn(x, c, q, head, ka, code, vis) ==
  LET rs == ReadResponse(x.d, head, x.e)
  IN IF rs.ok /\ Reflects(rs.body, vis) THEN Bad("markup of the request in an error page") ELSE Plain(x, c, rs, ka, code, << >>)
Failure(x, c, q, vis, msg) == IF x.s.hooks.s THEN Custom(x, c, q, q.head, q.ka, TSE, 500, msg) ELSE BuiltIn(x, c, q, q.head, q.ka, 500, vis)
TBoom(text) == <<98,111,111,109,32,60>> \o text \o <<62>>

\* the routed request reaches a handler (or none)
Dispatch(x, c, q, r, vis, users) ==
  LET s == x.s  i == Route(s.res, r) IN
  IF i = 0 THEN
    IF s.hooks.n THEN (IF x.calls # << >> /\ ~SameCall(x.calls[1], TNF, q, vis, users) THEN Bad("request given to the not-found handler")
                       ELSE Custom(x, c, q, q.head, q.ka, TNF, 404, << >>))
    ELSE BuiltIn(x, c, q, q.head, q.ka, 404, vis)
  ELSE IF x.calls = << >> THEN Bad("handler not called")
  ELSE LET h == s.res[i]  y == Took(x)  text == Text(h.t, s.n + 1)  rs == ReadResponse(x.d, q.head, x.e)
           want == IF q.head THEN << >> ELSE text IN
    IF x.calls[1].t # h.t THEN Bad("wrong handler")
    ELSE IF x.calls[1].u \notin users THEN Bad("user of the request")
    ELSE IF ~SameCall(x.calls[1], h.t, q, vis, users) THEN Bad("request given to the handler")
    ELSE CASE h.k \in {110, 115, 103} -> Plain(y, c, rs, q.ka, 200, want)                       \* n s g
           [] h.k = 99 -> Plain(y, c, rs, q.ka /\ q.sup, 200, want)                               \* c
           [] h.k \in {120, 117} -> Plain(y, c, rs, FALSE, 200, want)                             \* x u
           [] h.k \in SvcKinds -> IF ~rs.ok THEN Bad("no complete response")
                                 ELSE IF \E j \in 1..Len(rs.h) : rs.h[j][1] \notin SvcHeaders THEN Bad("header of the answer of a service")
                                 ELSE IF ~SvcAnswer(h.k, q, vis, x.calls[1].u, rs.h, rs.body, q.head) THEN Bad("answer of a service")
                                 ELSE Plain(y, c, rs, q.ka, SvcStatus(h.k), << >>)
           [] h.k = 116 -> Failure(y, c, q, vis, TBoom(text))                                     \* t
           [] h.k = 98 -> Failure(y, c, q, vis, << >>)                                            \* b
           [] h.k = 100 -> [y EXCEPT !.s.conns[c].st = "wait", !.s.held = Append(@, [c |-> c, text |-> want, ka |-> q.ka, head |-> q.head, done |-> FALSE])]  \* d

(* login, logout and refusals *)
Headed(h, names) == \A i \in 1..Len(h) : h[i][1] \in names
SetCookies(rs) == {v \in M!DVals(rs.h, M!NSetCookie) : TRUE}
\* a Set-Cookie header, read as name, value, expires at once
Baked(v) == LET cs == M!Cookies(v, TRUE).out IN IF cs = << >> THEN [n |-> << >>, v |-> << >>] ELSE [n |-> cs[1][1], v |-> cs[1][2]]
AgeZero(v) == FindFrom(<<109,97,120,45,97,103,101,61,48>>, SLower(v), 1) # 0
Answered(rs, url, codes) ==
  /\ rs.ok /\ rs.sc \in codes
  /\ rs.sc = 302 => M!DVals(rs.h, NLocation) = {url}
  /\ rs.sc # 302 => ~M!DHas(rs.h, NLocation)
  /\ Headed(rs.h, {M!NConnection, M!NContentLength, M!NSetCookie, NLocation, NAuthenticate, M!NTransferEncoding})
Unsafe(url) == \E i \in 1..Len(url) : url[i] \in {CR, LF}
Refuse(x, c, q) ==
  LET rs == ReadResponse(x.d, q.head, x.e)
      to == IF x.s.auth = "cookie" THEN x.s.au[3] ELSE << >> IN
  IF ~Answered(rs, to, IF to = << >> THEN {401} ELSE {302}) THEN Bad("request not refused as documented")
  ELSE IF M!DHas(rs.h, M!NSetCookie) THEN Bad("cookie sent with a refusal")
  ELSE IF x.s.auth = "basic" /\ M!DVals(rs.h, NAuthenticate) # {VBasic \o VRealm \o <<DQUOTE>> \o x.s.au[1] \o <<DQUOTE>>} THEN Bad("challenge")
  ELSE After(x, c, rs, q.ka)
LoginPage(x, c, q, vis) ==
  LET s == x.s  rs == ReadResponse(x.d, q.head, x.e)  url == Query(q, QUrl)
      codes == IF Unsafe(url) THEN {204, 400} ELSE IF url = << >> THEN {204} ELSE {302}
      sc == SetCookies(rs)  ck == IF sc = {} THEN [n |-> << >>, v |-> << >>] ELSE Baked(OneOf(sc)) IN
  IF Strip(vis) = s.au[1] THEN
    IF ~Matches(s, Query(q, QUser), Query(q, QPass)) THEN Refuse(x, c, q)
    ELSE IF ~Answered(rs, url, codes) THEN Bad("answer to a login")
    ELSE IF rs.sc = 400 THEN After(x, c, rs, q.ka)
    ELSE IF M!DCount(rs.h, M!NSetCookie) # 1 \/ ck.n # NSession \/ ck.v = << >> THEN Bad("session cookie")
    ELSE IF ck.v \in x.s.used THEN Bad("session cookie used before")
    ELSE After([x EXCEPT !.s.sess = Append(@, [c |-> ck.v, u |-> Query(q, QUser), t |-> s.now, stale |-> FALSE]), !.s.used = @ \cup {ck.v}], c, rs, q.ka)
  ELSE IF ~Answered(rs, url, codes) THEN Bad("answer to a logout")
    ELSE IF M!DCount(rs.h, M!NSetCookie) # 1 \/ ck.n # NSession \/ ck.v # << >> \/ ~AgeZero(OneOf(sc)) THEN Bad("session cookie not withdrawn")
    ELSE LET mine == CookieOf(q)  Other(e) == e.c # mine \/ mine = << >>
         IN After([x EXCEPT !.s.sess = SelectSeq(@, Other)], c, rs, q.ka)

\* a complete request
Serve(x, c, p) ==
  LET s == x.s  q == Asked(p)
      f == Follow(s.red, Strip(q.o), 0)
      vis == IF f.k = 0 THEN q.o ELSE f.r        \* the resource the handler sees
  IN IF ~f.ok THEN Failure(x, c, q, vis, << >>)
     ELSE IF s.auth = "none" THEN Dispatch(x, c, q, f.r, vis, {<< >>})
     ELSE IF s.auth = "cookie" /\ Strip(vis) \in {s.au[1], s.au[2]} THEN LoginPage(x, c, q, vis)
     ELSE LET id == Identity(s, q)
              open == ~Needed(s, vis) \/ (s.auth = "cookie" /\ s.au[3] # << >> /\ vis = s.au[3])
              rs == ReadResponse(x.d, q.head, x.e)
              refused == rs.ok /\ rs.sc \in {401, 302}   \* handlers answer otherwise
              \* a session used is a session renewed
              Renew(y) == IF s.auth = "cookie" THEN [y EXCEPT !.s.sess = [i \in 1..Len(@) |-> IF i \in Session(s, CookieOf(q)) THEN [@[i] EXCEPT !.t = s.now] ELSE @[i]]] ELSE y
          IN IF open THEN (IF refused THEN Bad("credentials asked for although not needed")
                           ELSE Dispatch(x, c, q, f.r, vis, {<< >>} \cup (IF id.may THEN {<<id.u>>} ELSE {})))
             ELSE IF id.must THEN (IF refused THEN Bad("valid credentials refused") ELSE Dispatch(Renew(x), c, q, f.r, vis, {<<id.u>>}))
             ELSE IF ~id.may THEN (IF ~refused THEN Bad("restricted resource served without valid credentials") ELSE Refuse(x, c, q))
             ELSE IF refused THEN Refuse(x, c, q) ELSE Dispatch(Renew(x), c, q, f.r, vis, {<<id.u>>})

\* connection c answers whatever is complete
RECURSIVE Run(_,_)
Run(x, c) ==
  IF Has(x) \/ x.s.conns[c].st # "open" THEN x
  ELSE LET k == x.s.conns[c]  p == ReadRequest(k.buf, k.max) IN
    CASE p.v = "ok" -> Run(Serve([x EXCEPT !.s.conns[c].buf = RDrop(@, p.n)], c, p), c)
      [] p.v = "err" -> \* the last thing answered
           LET head == RExpand(p.m) = M!THead  w == ReadResponse(x.d, FALSE, FALSE).ok
               y == [x EXCEPT !.s.conns[c].buf = << >>]
           IN IF x.s.hooks.b THEN Custom(y, c, << >>, head /\ ~w, FALSE, TBR, 400, << >>) ELSE BuiltIn(y, c, << >>, head /\ ~w, FALSE, 400, RExpand(p.r))
      [] OTHER -> IF k.eof THEN [x EXCEPT !.s.conns[c].st = "closed"] ELSE x

(* --------------------------------- steps ------------------------------- *)
None == [buf |-> << >>, st |-> "none", eof |-> FALSE, max |-> 0]
NewServer(auth, au, nconn) ==
  [res |-> << >>, red |-> << >>, max |-> DEFAULT_MAX, hooks |-> [n |-> FALSE, b |-> FALSE, s |-> FALSE],
   auth |-> auth, au |-> au, users |-> << >>, restrict |-> << >>, permit |-> << >>, sess |-> << >>, used |-> {}, now |-> 0,
   conns |-> [c \in 1..nconn |-> None], held |-> << >>, n |-> 0]
Stale(s, u) == [s EXCEPT !.sess = [i \in 1..Len(@) |-> IF @[i].u = u THEN [@[i] EXCEPT !.stale = TRUE] ELSE @[i]]]
OutOf(o, c) == LET S == {i \in 1..Len(o.out) : o.out[i].c + 1 = c} IN IF S = {} THEN [c |-> c - 1, d |-> << >>, e |-> FALSE] ELSE o.out[OneOf(S)]
\* connection c was given something: what follows must be all of calls and of the bytes returned
Settle(s, o, c) ==
  LET w == OutOf(o, c)
      x == Run([s |-> s, calls |-> o.calls, d |-> w.d, e |-> w.e], c)
  IN IF Has(x) THEN x
     ELSE IF x.calls # << >> THEN Bad("handler called without a request")
     ELSE IF x.d # << >> THEN Bad("bytes sent without a request")
     ELSE IF w.e # (x.s.conns[c].st = "closed" /\ s.conns[c].st # "closed") THEN Bad(IF w.e THEN "connection closed" ELSE "connection not closed")
     ELSE [s |-> x.s]
Quietly(s, o) == IF o.calls # << >> THEN Bad("handler called") ELSE [s |-> s]
Open(s) == Cardinality({c \in DOMAIN s.conns : s.conns[c].st \in {"open", "wait", "lost"}})
Has1(a, b) == \E i \in 1..Len(a) : a[i] = b
Act(s, o) ==
  LET c == o.c + 1 IN
  CASE o.op = "C" -> Quietly([s EXCEPT !.conns[c] = [buf |-> << >>, st |-> "open", eof |-> FALSE, max |-> s.max]], o)
    [] o.op \in {"S", "K"} -> Settle([s EXCEPT !.conns[c].buf = RConcat(@, o.a)], o, c)
    [] o.op = "E" -> Settle([s EXCEPT !.conns[c].eof = TRUE], o, c)
    [] o.op = "X" -> Quietly([s EXCEPT !.conns[c].st = IF @ = "wait" THEN "lost" ELSE "gone"], o)
    [] o.op = "A" -> Quietly(IF \E i \in 1..Len(s.res) : s.res[i].n = Strip(o.a) THEN s ELSE [s EXCEPT !.res = Append(@, [n |-> Strip(o.a), t |-> o.b, k |-> o.k])], o)
    [] o.op = "D" -> LET Stays(e) == e.n # Strip(o.a) IN Quietly([s EXCEPT !.res = SelectSeq(@, Stays)], o)
    [] o.op = "R" -> Quietly(IF \E i \in 1..Len(s.red) : s.red[i][1] = Strip(o.a) THEN s ELSE [s EXCEPT !.red = Append(@, <<Strip(o.a), Strip(o.b)>>)], o)
    [] o.op = "H" -> Quietly([s EXCEPT !.hooks = [n |-> @.n \/ Has1(o.a, 110), b |-> @.b \/ Has1(o.a, 98), s |-> @.s \/ Has1(o.a, 115)]], o)
    [] o.op = "L" -> Quietly([s EXCEPT !.max = o.n], o)
    [] o.op = "T" -> Quietly([s EXCEPT !.now = @ + o.n], o)
    [] o.op = "U" -> LET Other(e) == e.n # o.a IN
         Quietly(CASE o.k = 97 -> IF HasUser(s.users, o.a) THEN s ELSE [s EXCEPT !.users = Append(@, [n |-> o.a, p |-> o.b])]
                   [] o.k = 117 -> IF HasUser(s.users, o.a) THEN Stale([s EXCEPT !.users = SetUser(@, o.a, o.b)], o.a) ELSE s
                   [] o.k = 114 -> Stale([s EXCEPT !.users = SelectSeq(@, Other)], o.a), o)
    [] o.op = "Z" -> Quietly(IF o.k = 114 THEN [s EXCEPT !.restrict = Append(@, Strip(o.a))] ELSE [s EXCEPT !.permit = Append(@, Strip(o.a))], o)
    [] o.op = "F" ->
         IF o.n + 1 > Len(s.held) THEN Quietly(s, o)
         ELSE LET h == s.held[o.n + 1]  k == h.c  s1 == [s EXCEPT !.held[o.n + 1].done = TRUE] IN
           IF h.done THEN Quietly(s, o)
           ELSE IF s.conns[k].st = "lost" THEN Quietly([s1 EXCEPT !.conns[k].st = "gone"], o)
           ELSE LET w == OutOf(o, k)
                    x0 == Plain([s |-> s1, calls |-> o.calls, d |-> w.d, e |-> w.e], k, ReadResponse(w.d, h.head, w.e), h.ka, 200, h.text)
                IN IF Has(x0) THEN x0
                   ELSE LET x == Run(x0, k) IN
                     IF Has(x) THEN x
                     ELSE IF x.calls # << >> THEN Bad("handler called without a request")
                     ELSE IF x.d # << >> THEN Bad("bytes sent without a request")
                     ELSE IF w.e # (x.s.conns[k].st = "closed") THEN Bad(IF w.e THEN "connection closed" ELSE "connection not closed")
                     ELSE [s |-> x.s]
Target(s, o) == IF o.op \in {"C", "S", "K", "E", "X"} THEN o.c + 1 ELSE IF o.op = "F" /\ o.n + 1 <= Len(s.held) THEN s.held[o.n + 1].c ELSE 0
Step(s, o) ==
  LET r == Act(s, o) IN
  IF Has(r) THEN r
  ELSE IF \E i \in 1..Len(o.out) : o.out[i].c + 1 # Target(s, o) /\ (o.out[i].d # << >> \/ o.out[i].e) THEN Bad("another connection was touched")
  ELSE IF o.op \notin {"S", "K", "E", "F"} /\ \E i \in 1..Len(o.out) : o.out[i].d # << >> \/ o.out[i].e THEN Bad("a connection was touched")
  ELSE IF o.nc # Open(r.s) THEN Bad("number of connections")
  ELSE r
RECURSIVE History(_,_,_)
History(s, os, i) == IF i > Len(os) THEN [i |-> 0, why |-> "ok"]
                     ELSE LET r == Step(s, os[i]) IN IF Has(r) THEN [i |-> i, why |-> r.why] ELSE History(r.s, os, i + 1)
=============================================================================
