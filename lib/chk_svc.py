"""P36: the bundled services (spec/Services.tla within HttpServer.tla, ServerTrace.tla)."""
import itertools
import vf
import chk_srv as H
from chk_srv import A, C, S, U, Z, RD, req, chunked
T = vf.runs_text
SRC = H.SRC + ["services/%s.cpp" % s for s in ("EchoService", "CookieService", "HelloService", "AllowNothingService", "LogService")]
def binary(): return vf.build("h_svc", "h_svc.cpp", SRC, ["-O1", "-I" + vf.REPO + "/services"] + vf.SAN)
def pct(b): return b"".join(b"%c" % c if 97 <= c <= 122 or 48 <= c <= 57 else b"%%%02x" % c for c in b)
def qs(ps, R=None): return b"&".join((n if R and R.random() < .3 and n.isalnum() else pct(n)) + b"=" + pct(v) for n, v in ps)
def multi(parts, d=b"XyZ"): return b"".join(b"--" + d + b"\r\nContent-Disposition: form-data; name=\"" + n + b"\"\r\n" + (b"Content-Type: " + t + b"\r\n" if t else b"") + b"\r\n" + v + b"\r\n" for n, t, v in parts) + b"--" + d + b"--"
ALL = [A(b"/e", "e", "E"), A(b"/k", "k", "K"), A(b"/h", "h", "H"), A(b"/no", "n", "N"), A(b"/l", "l", "L")]
NAMES = [b"a", b"ab", b"A", b"x-y", b"x_1", b"a b", b"a&b", b"a=b", b"a+b", b"a%b", b"<i>", b"\"q\"", b"'", b";", b"$v", b"path", b"a\r\nX: y", b"a\nb", b"\x01", b"\x7f", b"\xc3\xa9", b"\xff", b"n" * 100, b"a,b", b"?", b"[Delete]", b"a/b", b"", b"{}", b"@", b"expires", b"~!", b"a.b"]
VALUES = [b"1", b"v", b"", b"a b", b"a+b", b"a&b=c", b"a%41", b"<script>alert(1)</script>", b"\"", b"a\"b", b"'", b"a;b", b"a,b", b"a\r\nSet-Cookie: z=1", b"a\r\n\r\n<html>", b"\n", b"\r", b"\x00", b"\x1f", b"\x7f", b"\xc3\xa9", b"\xff\xfe", b"v" * 300, b"a\\b", b"=", b"&amp;", b"]</p>", b"a: b", b"\t", b"x" * 90]
def histories(ctx):
    big = ctx.thorough; R = ctx.rng; cases = []
    def hist(reqs, auth="none", pre=()):
        cases.append([auth] + ALL + list(pre) + [C()] + [S(x) for x in reqs])
    def add(n, v, how, path=b"/k"):
        p = [(b"action", b"Add Cookie"), (b"cookie_name", n), (b"cookie_value", v)]
        R.shuffle(p)
        if how == 0: return req(path + b"?" + qs(p))
        if how == 1: return req(path, b"POST", h=((b"Content-Type", b"application/x-www-form-urlencoded"),), body=qs(p))
        if how == 2: return req(path + b"?" + qs(p[:1]), b"POST", h=((b"Content-Type", b"application/x-www-form-urlencoded; charset=x"),), body=qs(p[1:]))
        return req(path, b"POST", h=((b"Content-Type", b"multipart/form-data; boundary=XyZ"),), body=multi([(a, R.choice([b"", b"text/plain"]), b) for a, b in p]))
    def dele(n, path=b"/k"): return req(path + b"?" + qs([(b"action", b"delete"), (b"cookie_name", n)]))
    # cookies: every name, every value, every way to ask
    for i, n in enumerate(NAMES):
        hist([add(n, b"v", h) for h in (0, 1, 2)] + [dele(n), add(n, R.choice(VALUES), 0), dele(n, b"/k/sub")])
    for v in VALUES: hist([add(b"a", v, h) for h in (0, 1, 2, 3)] + [add(R.choice(NAMES), v, 0, b"/k/<b>\"x")])
    for q in (b"", b"action", b"action=", b"action=add", b"action=Add+Cookie", b"action=Add%20Cookie", b"ACTION=Add%20Cookie&Cookie_Name=a&COOKIE_VALUE=b", b"action=delete", b"action=Delete&cookie_name=a", b"action=delete&cookie_name=", b"cookie_name=a&cookie_value=b",
              b"action=x&action=delete&cookie_name=a", b"action=Add+Cookie&cookie_name=a,b&cookie_value=c", b"action=delete&cookie_name=a&cookie_name=b", b"action=<x>", b"action=delete;cookie_name=a"):
        hist([req(b"/k?" + q), req(b"/k?" + q, b"HEAD"), req(b"/e?" + q), req(b"/k", b"POST", h=((b"Content-Type", b"application/x-www-form-urlencoded"),), body=q), req(b"/h?" + q)])
    # cookies that come with the request
    JARS = [b"a=b", b"a=b; c=d", b"a=\"b c\"; c=d", b"a=<i>; b=\">\"", b"a=1; a=2", b"A=1; a=2; a=1", b"$Version=1; a=b; $Path=/", b"a=b; path=/x", b"a", b"a=", b"=x", b"", b"a=b;", b"x=%41+1&2", b"a&b=c", b"a='b;c'", b"a=b, c=d", b"\xc3\xa9=\xff", b"t=" + b"y" * 300, b"a=b; " * 6]
    for j in JARS:
        hist([req(p, h=((b"Cookie", j),)) for p in (b"/k", b"/e", b"/k/x")] + [req(b"/k?action=delete&cookie_name=a", h=((b"Cookie", j), (b"cookie", R.choice(JARS))))])
    for j, k in (itertools.product(JARS, JARS) if big else [(R.choice(JARS), R.choice(JARS)) for _ in range(40)]): hist([req(p, h=((b"Cookie", j), (b"COOKIE", k), (b"X-Cookie", b"z=1"))) for p in (b"/k", b"/e")])
    # pages that name the resource
    for r in (b"/k/", b"/k/<b>", b"/k/\"onclick=\"x", b"/k/'", b"/k/&amp;", b"/k/%3cb%3e", b"/k/a;b", b"/k/\xc3\xa9", b"/k/\xff", b"/k//", b"/k/" + b"r" * 300):
        for q in (b"", b"?action=Add%20Cookie&cookie_name=a&cookie_value=b", b"?x"): hist([req(r + q, m, h=((b"Cookie", b"a=b; c=\"d\""),)) for m in (b"GET", b"HEAD", b"POST")])
    # echo
    HEADS = [(b"X-A", b"b"), (b"x-a", b"c"), (b"X-A", b"b"), (b"Accept", b"*/*"), (b"Cookie", b"a=b"), (b"Host", b"h"), (b"X-Empty", b""), (b"X-L", b"l" * 300), (b"X-M", b"<i>: [Query Parameters]"), (b"Cookie", b"c=\"d: e\""), (b"Connection", b"keep-alive"), (b"User-Agent", b"x/y (z; w)"), (b"X-8", b"\xff\xfe")]
    QS = [b"", b"a=b", b"a=b&a=c", b"a=b,c", b"a=%0d%0a%5bCookie", b"a", b"=b", b"a=&b=", b"A=1&a=1", b"x+y=z%20w", b"<i>=\"", b"a=b&", b"&&", b"a=b=c", b"n=" + b"v" * 300]
    BODIES = [None, b"", b"x", b"\r\n", b"\0\1\2", b"[USER Info]\r\n\r\n", b"a=b&c=d", b"z" * 900, bytes(range(256))]
    def echo():
        h = R.sample(HEADS, R.randrange(0, 5)); m = R.choice([b"GET", b"POST", b"PUT", b"HEAD", b"X-ODD"]); v = R.choice([b"1.1"] * 4 + [b"1.0"]); r = b"/e" + R.choice([b"", b"/", b"/x", b"/<i>", b"//y", b"/%41"]); q = R.choice(QS)
        k = R.random()
        if m == b"HEAD": b = None
        elif k < .15: return chunked(r + (b"?" + q if q else b""), [x for x in (R.choice(BODIES[2:]) for _ in range(R.randrange(0, 3)))], m)
        elif k < .3: h = h + [(b"Content-Type", b"application/x-www-form-urlencoded")]; b = qs([(R.choice(NAMES[:20]), R.choice(VALUES)) for _ in range(R.randrange(0, 4))])
        elif k < .4: h = h + [(b"Content-Type", b"multipart/form-data; boundary=XyZ")]; b = multi([(R.choice([b"f", b"g", b"file"]), R.choice([b"", b"text/plain", b"image/png"]), R.choice([b"v", b"", b"\xff\0z", b"a: b", b"w" * 500])) for _ in range(R.randrange(1, 4))])
        else: b = R.choice(BODIES)
        return req(r + (b"?" + q if q or R.random() < .1 else b""), m, v, h, b)
    for q in QS: hist([req(b"/e?" + q), req(b"/e/?" + q, b"POST", body=q), req(b"/e", b"POST", h=((b"Content-Type", b"application/x-www-form-urlencoded"),), body=q)])
    for b in BODIES: hist([req(b"/e", m, h=(R.choice(HEADS),), body=b) for m in (b"POST", b"PUT", b"GET")])
    for _ in range(1500 if big else 160): hist([echo() for _ in range(R.randrange(1, 6))])
    # who asks, and by which way
    for _ in range(400 if big else 40):
        rq = []
        for _ in range(6):
            h = [R.choice(HEADS)] + ([(b"Authorization", b"Basic " + H.b64(R.choice([b"u:p", b"w<x>:p", b"u:z"])))] if R.random() < .8 else [])
            rq.append(req(R.choice([b"/e", b"/e/s", b"/r", b"/k", b"/h", b"/no", b"/l", b"/r2"]) + R.choice([b"", b"?a=b"]), (m := R.choice([b"GET", b"POST", b"HEAD"])), h=h, body=R.choice([None, b"", b"x=1", b"[USER Info]\r\n"]) if m == b"POST" else None))
        hist(rq, "basic;%s" % T(b"realm"), [U("a", b"u", b"p"), U("a", b"w<x>", b"p"), Z("r", R.choice([b"/e", b"", b"/k"])), RD(b"/r", b"/e"), RD(b"/r2", b"/k")])
    for m in (b"GET", b"HEAD", b"POST", b"OPTIONS"):
        for v in (b"1.1", b"1.0"): hist([req(p, m, v, h=((b"Connection", b"keep-alive"),)) for p in (b"/h", b"/no", b"/l", b"/h/x", b"/no?q")])
    # several connections at once, in pieces
    for _ in range(400 if big else 40):
        n = R.choice([1, 2, 3]); ops = ["none"] + ALL; todo = []
        for c in range(n):
            w = b"".join(R.choice([echo, lambda: req(R.choice([b"/h", b"/no", b"/l"])), lambda: add(R.choice(NAMES), R.choice(VALUES), R.randrange(3))])() for _ in range(3))
            todo.append([C(c)] + [S(x, c) for x in H.pieces(R, w, "some")])
        while any(todo):
            c = R.randrange(n)
            if todo[c]: ops.append(todo[c].pop(0))
        cases.append(ops)
    return cases
def P36(ctx):
    big = ctx.thorough
    base = "SPECIFICATION Spec\n" + H.CONST + " Most = %d\n Design = \"%s\"\nINVARIANT NoMarkup NoLines Exactly Honest\n"
    ctx.model("SvcMC", base % (4 if big else 3, "sound"), timeout=850)
    for d in ("raw", "any", "strict"): ctx.defect("SvcMC", base % (3, d))
    cases = histories(ctx); ctx.log(len(cases), "cases")
    H.decide(ctx, cases, binary())
