---------------------------- MODULE FormsTrace -----------------------------
(* One record per recorded call or parsed request; see harness/h_form.cpp. *)
EXTENDS Forms, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, verdict
vars == <<n, verdict>>
Agrees(spec, r) == r.ok = spec.ok /\ (spec.ok => SameBag(r.out, spec.out))
\* concatenation of the pairs of several accepted texts
RECURSIVE Join(_,_)
Join(ss, i) == IF i > Len(ss) THEN << >> ELSE ss[i].out \o Join(ss, i+1)
CkHeader(c) == SetCookie(c[1], c[2], c[3], c[4])
Good(r) ==
  CASE r.op = "url"    -> Agrees(UrlForm(r.in), r)
    [] r.op = "cookie" -> Agrees(Cookies(r.in, r.set), r)
    [] r.op = "mp"     -> Agrees(Multipart(r.ct, r.in), r)
    \* a dictionary written as a query string, and the code's own reading of it
    [] r.op = "mkq"    -> WritesQuery(r.text, r.in) /\ r.ok /\ SameBag(r.out, r.in)
    \* cookies set on a response: their headers, and reading them back
    [] r.op = "sc"     -> /\ SameBag(r.headers, [i \in 1..Len(r.in) |-> CkHeader(r.in[i])])
                          /\ r.ok /\ SameBag(r.out, [i \in 1..Len(r.in) |-> <<r.in[i][1], r.in[i][2]>>])
    \* cookies added to a request: sent and read back
    [] r.op = "ck"     -> r.ok /\ SameBag(r.out, r.in)
    [] r.op = "d64"    -> /\ r.text = DataString(r.type, r.in)
                          /\ r.ok /\ r.out = r.in /\ r.outtype = r.type /\ r.size = Len(r.in) + 1
    [] r.op = "d64bad" -> TRUE
    [] r.op = "uri"    -> LET u == Uri(r.in) IN r.ok = u.ok /\ (u.ok => r.proto = u.proto /\ r.host = u.host /\ r.port = u.port /\ r.path = u.path /\ r.query = u.query)
    \* a whole request: query string, Cookie headers and form body
    [] r.op = "req"    -> LET q == UrlForm(r.q)
                              f == IF r.form = "url" THEN UrlForm(r.in) ELSE IF r.form = "mp" THEN Multipart(r.ct, r.in) ELSE [ok |-> TRUE, out |-> << >>]
                              c == [i \in 1..Len(r.cks) |-> Cookies(r.cks[i], FALSE)]
                          IN /\ r.ok
                             /\ (q.ok /\ f.ok) => SameBag(r.out, q.out \o f.out)
                             /\ (\A i \in 1..Len(c) : c[i].ok) => SameBag(r.cookies, Join(c, 1))
    \* limits: a name of nl bytes with a value of vl bytes
    [] r.op = "len"    -> LET fits == r.nl <= NAME_MAX /\ r.vl <= VALUE_MAX
                          IN r.ok = fits /\ (fits => r.onl = r.nl /\ r.ovl = r.vl)
Init == n \in 1..Len(Log) /\ verdict = "?"
Decide == /\ verdict = "?"
          /\ verdict' = IF Good(Log[n]) THEN "ok" ELSE "the specified result is different"
          /\ PrintT(<<"@@", Log[n].id, verdict'>>)
          /\ UNCHANGED n
Spec == Init /\ [][Decide]_vars
=============================================================================
