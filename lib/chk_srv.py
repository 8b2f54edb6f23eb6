"""P27, P28, P29: the HTTP server (spec/HttpServer.tla, ServerTrace.tla)."""
import base64, itertools
import vf
T = vf.runs_text
SRC = ["src/" + f for f in ("http_auth.cpp http_basic_auth.cpp http_cookie_auth.cpp http_message.cpp http_parser.cpp http_reader.cpp http_server.cpp http_types.cpp http_writer.cpp "
                            "algorithm.cpp tcp_server.cpp tcp_timer.cpp scheduler.cpp logger.cpp admin_rights.cpp").split()]
CONST = "CONSTANTS\n STATUS_MESSAGE_MAX = 1024\n METHOD_MAX = 1024\n RESOURCE_MAX = 262144\n QUERY_STRING_MAX = 1048576\n HEADER_NAME_MAX = 1024\n HEADER_VALUE_MAX = 1048576\n"
def binary(): return vf.build("h_srv", "h_srv.cpp", SRC, ["-O1"] + vf.SAN)

def A(r, tag, kind="n"): return "A;%s;%s;%s" % (T(r), tag, kind)
def D(r): return "D;%s" % T(r)
def RD(a, b): return "R;%s;%s" % (T(a), T(b))
def C(c=0): return "C;%d" % c
def S(b, c=0): return "S;%d;%s" % (c, T(b))
def K(j, pre, post, c=0): return "K;%d;%d;%s;%s" % (c, j, T(pre), T(post))
def U(op, n, p=b""): return "U;%s;%s;%s" % (op, T(n), T(p))
def Z(k, r): return "Z;%s;%s" % (k, T(r))
def req(r, m=b"GET", v=b"1.1", h=(), body=None):
    x = m + b" " + r + b" HTTP/" + v + b"\r\n" + b"".join(a + b": " + b + b"\r\n" for a, b in h)
    if body is not None: x += b"Content-Length: %d\r\n" % len(body)
    return x + b"\r\n" + (body or b"")
def chunked(r, parts, m=b"POST"):
    return m + b" " + r + b" HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in parts) + b"0\r\n\r\n"

def decide(ctx, cases, b=None):
    """cases: lists [auth, op, ...]"""
    b = b or binary(); ctx.log("built")
    def run(ids, quiet): return vf.run_batch(b, [(i, "%d %s\n" % (i, " ".join(cases[i]))) for i in ids], args=[str(quiet)])
    def judge(out, ids):
        recs = [out[i] for i in ids if "crash" not in out[i]]
        rej, t = vf.validate("ServerTrace", "ServerTrace.cfg", recs, timeout=800)
        ctx.states += t.distinct; ctx.transitions += t.states
        rej.update({i: "the code crashed, threw or hung: " + out[i]["crash"][-700:] for i in ids if "crash" in out[i]})
        return rej
    ids = list(range(len(cases)))
    out = run(ids, 1); ctx.log("ran", len(ids))
    rej = judge(out, ids)
    again = sorted(i for i in rej if "crash" not in out[i])[:150]
    if again:   # a busy machine may have delayed the loopback network: wait longer
        out2 = run(again, 60); rej2 = judge(out2, again)
        for i in again: out[i] = out2[i]
        rej = {i: w for i, w in rej.items() if i not in again}; rej.update(rej2)
    ctx.validated += len(ids)
    for i, why in sorted(rej.items()): ctx.violation("not what the specification says: %s; history: %s" % (why, " ".join(cases[i])[:1500]), {"case": cases[i], "recorded": out[i]})
    ctx.log(len(ids), "decided,", len(rej), "rejected")
    for c in cases[:: max(1, len(cases) // 5)]: ctx.sample(" ".join(c)[:600])
    return out, rej

PATHS = [b"", b"/", b"/a", b"/a/", b"/a/b", b"/ab", b"/a/b/c", b"/A", b"/a/bc", b"/b", b"/a//b", b"/a b"[:2] + b"-b", b"/%61", b"/a/b/", b"/a.b", b"/a/..", b"/a!b"]
REQS = [b"/", b"/a", b"/a/", b"/a//", b"/a/b", b"/a/b/", b"/ab", b"/abc", b"/ab/c", b"/a/b/c/d", b"/a/bc", b"/A", b"/A/b", b"/b", b"/c", b"/a//b", b"/a-b", b"/a-b/c", b"/%61", b"/%61/x", b"/a.b", b"/a/../b", b"/a!b", b"/a;x", b"/<a>", b"/x/<i>&", b"*", b"a", b"a/b", b"http://h/a"]
def P27(ctx):
    big = ctx.thorough; R = ctx.rng; cases = []
    ctx.model("HttpServerMC", "SPECIFICATION Spec\n" + CONST + " Depth = %d\nINVARIANT Routed Redirected\n" % (3 if big else 2), timeout=850)
    # every pair of resources with every request
    for x, y in itertools.combinations(PATHS, 2):
        if (x.rstrip(b"/") if x.endswith(b"/") else x) == (y[:-1] if y.endswith(b"/") else y): continue
        near = [q for q in REQS if len(q) > 1 and (q.startswith(x) or q.startswith(y))]
        cases.append(["none", A(x, "one"), A(y, "two"), C()] + [S(req(q)) for q in (REQS if big else sorted(set(R.sample(REQS, 7) + (R.sample(near, 6) if len(near) > 6 else near))))])
    for x in PATHS: cases.append(["none", A(x, "one"), C()] + [S(req(q, R.choice([b"GET", b"POST", b"HEAD", b"PUT", b"X"]))) for q in REQS] + [D(x)] + [S(req(q)) for q in REQS[:8]] + [A(x, "two")] + [S(req(q)) for q in REQS[:8]])
    # longer names
    for a in (b"/a", b"/a-rather-long-name/with/parts", b"/" + b"n" * 200):
        more = [a + t * k for t in (b"b", b"-", b"/b", b"/", b"%2f", b".") for k in (1, 3, 7, 20, 300)] + [a[:-k] for k in range(1, min(4, len(a) - 1))] + [a + b"bcdef/g/h", a + b"/bcdef/g/h", b"/x" + a, b"/" + a]
        for i in range(0, len(more), 5):
            cases.append(["none", A(a, "a")] + ([A(b"", "top")] if i % 2 else []) + [A(more[i], "m"), RD(a + b"q", a), C()] + [S(req(q)) for q in more[i:i + 5] + [a, a + b"q", more[i] + b"/x", more[i] + b"x"]])
    # redirect chains of every length, and loops
    for k in range(0, 14):
        for loop in (None, 0, 1, k // 2, k):
            ops = ["none", "H;s"] if R.random() < .5 else ["none"]
            ops += [RD(b"/r%d" % i + R.choice([b"", b"/"]), b"/r%d" % (i + 1) + R.choice([b"", b"/"])) for i in range(k)]
            if loop is not None: ops += [RD(b"/r%d" % k, b"/r%d" % loop)]
            R.shuffle(ops[2:])
            ops += [A(b"/r%d" % k, "end"), A(b"/r1/x", "not"), A(b"/r0", "first"), C()]
            cases.append(ops + [S(req(b"/r%d" % i + e)) for i in range(0, k + 1, max(1, k // 4)) for e in (b"", b"/", b"?q=1", b"/x")] + [S(req(b"/r0", v=b"1.0"))])
    for tgt in (b"", b"/", b"/a/", b"/a", b"/a/b/", b"noslash", b"/%61"):
        cases.append(["none", RD(b"/x", tgt), RD(b"/y/", tgt), RD(b"", b"/root"), A(b"/a", "a"), A(b"/a/b", "ab"), A(b"", "top"), C()] + [S(req(q)) for q in (b"/x", b"/x/", b"/x/z", b"/y", b"/y/", b"/", b"/a?x=y")])
    # everything at once, at random
    bad = [b"GET / HTTP/1.1\r\nbad header\r\n\r\n", b" / HTTP/1.1\r\n\r\n", b"GET /\x00 HTTP/1.1\r\n\r\n", b"GET / FTP/1.1\r\n\r\n", b"POST /a HTTP/1.1\r\nContent-Length: x\r\n\r\n", b"G@T / HTTP/1.1\r\n\r\n", b"POST /a HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", b"HEAD / HTTP/1.x\r\n\r\n", b"\x16\x03\x01\x02"]
    for _ in range(6000 if big else 700):
        ops = ["none"]; live = {}; conns = []; held = 0
        small = R.sample(PATHS, 4) + [b"/" + bytes(R.choice(b"ab/") for _ in range(R.randrange(1, 6))) for _ in range(3)]
        for _ in range(R.randrange(6, 26)):
            k = R.random()
            if k < .3:
                r = R.choice(small); key = r[:-1] if r.endswith(b"/") else r
                if key not in live: live[key] = 1; ops.append(A(r, "t%d" % len(ops), R.choice("nnnngsctbdxu")))
            elif k < .36 and live:
                r = R.choice(list(live)); del live[r]; ops.append(D(r + R.choice([b"", b"/"])))
            elif k < .46: ops.append(RD(R.choice(small), R.choice(small)))
            elif k < .5: ops.append("H;" + R.choice(["n", "b", "s", "nbs"]))
            elif k < .6 or not conns:
                c = len(conns); conns.append(c); ops.append(C(c))
            elif k < .64: ops.append(S(R.choice(bad), R.choice(conns)))
            elif k < .7: ops.append("F;%d" % R.randrange(0, 4))
            else:
                p = R.choice(small + REQS) or b"/"
                if R.random() < .4: p = p + R.choice([b"/", b"/x", b"?a=b", b"//", b"x", b"/?q"])
                m = R.choice([b"GET", b"GET", b"HEAD", b"POST", b"DELETE"])
                ops.append(S(req(p, m, R.choice([b"1.1", b"1.1", b"1.1", b"1.0", b"2.0"]), R.choice([(), (), ((b"Connection", b"close"),), ((b"connection", b"Keep-Alive"),)]), R.choice([None, None, b"", b"body", b"x" * 5000]) if m == b"POST" else None), R.choice(conns)))
        cases.append(ops)
    decide(ctx, cases)

def pieces(R, w, how):
    """cuts of w"""
    n = len(w)
    if how == "one": return [w]
    if how == "bytes": return [w[i:i + 1] for i in range(n)]
    k = R.randrange(1, 6)
    cuts = sorted(R.randrange(0, n + 1) for _ in range(k))
    return [x for x in (w[a:b] for a, b in zip([0] + cuts, cuts + [n])) if x]
def P28(ctx):
    big = ctx.thorough; R = ctx.rng; cases = []
    ctx.model("ConnMC", "SPECIFICATION Spec\n" + CONST + " BufSize = %d\n MaxPiece = %d\n Count = %d\nINVARIANT Matching OneAtATime AllServed\n" % ((9, 2, 2) if big else (7, 3, 2)), timeout=850)
    KINDS = "ndsgctbxu"
    ALL = [A(b"/%c" % ord(k), k, k) for k in KINDS]
    def body(): return R.choice([b"", b"x", b"GET /n HTTP/1.1\r\n\r\n", b"\r\n", b"\0", b"a" * 40, bytes(R.randrange(256) for _ in range(R.randrange(1, 12)))])
    def one(kinds="nnnndsgctbxu", size=None):
        k = R.choice(kinds); r = b"/%c" % ord(k) + R.choice([b"", b"", b"?q", b"/sub"])
        m = R.choice([b"GET", b"GET", b"POST", b"HEAD", b"PUT"])
        v = R.choice([b"1.1"] * 7 + [b"1.0", b"2.0", b"1.2"])
        h = R.choice([(), (), (), (), (), ((b"Connection", b"keep-alive"),), ((b"Connection", b"Keep-Alive"),), ((b"X-A", b"b"),), ((b"Connection", b"close"),), ((b"Connection", b"Close"),), ((b"Connection", b"upgrade"),), ((b"Cookie", b"a=b; c=d"),)])
        if R.random() < .25 and m != b"HEAD": return chunked(r, [b or b"y" for b in (body() for _ in range(R.randrange(0, 3)))], R.choice([b"POST", b"PUT", b"GET"]))
        return req(r, m, v, h, body() if m in (b"POST", b"PUT") or R.random() < .1 else None)
    def keep(kinds="nnngc"): return req(b"/%c" % ord(R.choice(kinds)), R.choice([b"GET", b"HEAD"]))
    BADS = [b"GET / HTTP/1.1\r\nbad header\r\n\r\n", b" / HTTP/1.1\r\n\r\n", b"GET /\x00 HTTP/1.1\r\n\r\n", b"GET /n FTP/1.1\r\n\r\n", b"POST /n HTTP/1.1\r\nContent-Length: x\r\n\r\n", b"G@T / HTTP/1.1\r\n\r\n", b"POST /n HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n",
            b"HEAD /n HTTP/1.x\r\n\r\n", b"POST /n HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nabX", b"\x16\x03\x01\x02"]
    # every cut of two requests in a row
    G1 = [req(b"/n"), req(b"/n", b"POST", body=b"ab"), chunked(b"/n", [b"xy", b"z"]), req(b"/s"), req(b"/c"), req(b"/d"), req(b"/t"), req(b"/x"), BADS[0]]
    for i, x in enumerate(G1):
        for y in (G1 if big else [G1[(i + j) % 3] for j in range(1)] + [G1[1 + i % 2]]):
            w = x + y
            for cut in range(1, len(w)):
                if not big and cut % 2 != i % 2 and abs(cut - len(x)) > 4: continue
                cases.append(["none"] + ALL + [C(), S(w[:cut]), S(w[cut:])] + (["F;0", "F;1"] if b"/d" in w else []))
    for w in (req(b"/n", b"POST", body=b"abc") + req(b"/n"), chunked(b"/n", [b"abc", b"d"]) + req(b"/s", b"HEAD"), req(b"/d") + req(b"/n") + req(b"/n")):
        cases.append(["none"] + ALL + [C()] + [S(x) for x in pieces(R, w, "bytes")] + ["F;0"])
    # message ends around the end of the read buffer (8192 bytes)
    for delta in range(-3, 4):
        for tail in (req(b"/n"), req(b"/n", b"POST", body=b"tail") + req(b"/s"), b"G", b""):
            first = req(b"/n", b"POST", h=((b"X", b"y"),), body=b""); pad = 8192 + delta - len(req(b"/n", b"POST", body=b"q" * 8000)) + 8000
            w = req(b"/n", b"POST", body=b"q" * pad)
            cases.append(["none"] + ALL + [C(), S(w + tail), S(req(b"/g"))])
            cases.append(["none"] + ALL + [C(), S(req(b"/d") + w[:8192 + delta - 20]), "F;0", S(w[8192 + delta - 20:] + tail)])
            hd = req(b"/n", h=((b"X-Pad", b"p" * (8192 + delta - len(req(b"/n", h=((b"X-Pad", b""),))))),))
            cases.append(["none"] + ALL + [C(), S(hd + tail)])
    for n in (1, 8191, 8192, 8193, 16384, 20000, 70000):
        cases.append(["none"] + ALL + [C(), S(req(b"/n", b"POST", body=b"z" * n) + req(b"/n") + chunked(b"/c", [b"k" * n, b"l" * 3]) + req(b"/s")), S(req(b"/n"))])
        cases.append(["none"] + ALL + [C(), S(keep() * (8192 // 40 if n == 8192 else 3) + req(b"/n", b"PUT", body=b"z" * n)), S(req(b"/n"))])
    # limits on the content
    for lim in (0, 1, 5, 100, 8192):
        for n in (0, 1, 4, 5, 6, 99, 100, 101, 8192, 8193):
            cases.append(["none", "L;%d" % lim] + ALL + [C(), S(req(b"/n", b"POST", body=b"b" * n) + req(b"/n")), S(req(b"/n"))])
            if n: cases.append(["none"] + ALL + [C(), "L;%d" % lim, S(keep()), S(chunked(b"/n", [b"b" * n]) + req(b"/n"))])
    # the client hangs up
    for w in (b"", b"G", req(b"/n")[:-1], req(b"/n"), req(b"/n") + b"GE", req(b"/n", b"POST", body=b"abc")[:-1], chunked(b"/n", [b"abc"])[:-2], req(b"/d"), req(b"/d") + req(b"/n"), req(b"/x"), BADS[0], req(b"/n") * 3, req(b"/d") + b"GET /n"):
        for fin in (["F;0", "F;1"], []):
            cases.append(["none"] + ALL + [C(0), C(1)] + ([S(w)] if w else []) + ["E;0"] + fin + [S(req(b"/n"), 1)])
            cases.append(["none"] + ALL + ["H;b", C(0), C(1)] + ([S(w)] if w else []) + fin + ["E;0"] + [S(req(b"/n"), 1), "E;1"])
    for pre in ([], [S(keep())], [S(keep() + keep())], [S(req(b"/d"))], [S(req(b"/d")), "F;0"], [S(keep() + req(b"/d"))]):
        cases.append(["none"] + ALL + [C(0), C(1)] + pre + ["X;0", S(req(b"/n"), 1), "F;0", C(2), S(req(b"/n"), 2)])
    # pipelines at random on several connections
    for _ in range(4000 if big else 420):
        ops = ["none"] + ALL + (["H;" + R.choice(["n", "b", "s", "nbs"])] if R.random() < .4 else []); n = R.choice([1, 1, 1, 2, 3]); todo = []
        for c in range(n):
            ops.append(C(c)); w = b"".join(one("nnnndsgctb" if R.random() < .8 else "nnnndsgctbxu") for _ in range(R.choice([1, 2, 3, 5, 8])))
            if R.random() < .15: w += R.choice(BADS) + one()
            if R.random() < .1: w += one()[:R.randrange(1, 20)]
            q = [S(x, c) for x in pieces(R, w, R.choice(["one", "some", "some"]))]
            if R.random() < .3: q.append("E;%d" % c)
            todo.append(q)
        held = 0
        while any(todo):
            c = R.randrange(n)
            if todo[c]: ops.append(todo[c].pop(0))
            if R.random() < .3: ops.append("F;%d" % R.randrange(0, 6))
        ops += ["F;%d" % i for i in R.sample(range(8), 8)]
        cases.append(ops)
    decide(ctx, cases)

def b64(x): return base64.b64encode(x)
def pct(b): return b"".join(b"%%%02x" % c if not (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122) else b"%c" % c for c in b)
def P29(ctx):
    big = ctx.thorough; R = ctx.rng; cases = []
    ctx.model("AuthMC", "SPECIFICATION Spec\n" + CONST + " Steps = %d\nINVARIANT Entitled Honoured Ended Forged\n" % (6 if big else 5), timeout=850)
    def basic(n, p, sch=b"Basic "): return (b"Authorization", sch + b64(n + b":" + p))
    AREAS = [b"/a", b"/a/b", b"/a/b/c", b"/ab", b"", b"/", b"/p/", b"/p", b"/p/q", b"/A"]
    ASK = [b"/", b"/a", b"/a/", b"/a//", b"/a/b", b"/a/b/", b"/a/b/c", b"/a/b/c/d", b"/a/bc", b"/ab", b"/abc", b"/A", b"/p", b"/p/q", b"/p/q/r", b"/p/", b"/x", b"//a", b"/a/../x", b"/%61", b"/./a"]
    RES = [A(b"", "top"), A(b"/a", "a"), A(b"/a/b", "ab"), A(b"/p/q", "pq")]
    N = [b"u", b"U", b"v", b"u:v", b"", b"a b", b"\xc3\xa9", b"n" * 40]; P = [b"p", b"q", b"", b"p:q", b":", b"\xff\x01", b"w" * 60]
    # what is restricted: every pair of areas
    for z in ("r", "p"):
        for x, y in itertools.product(AREAS, AREAS):
            if not big and R.random() < .55: continue
            cases.append(["basic;%s" % T(b"realm"), U("a", b"u", b"p")] + RES + [Z("r", x), Z(z, y), C()] + [S(req(q)) for q in R.sample(ASK, 5)] + [S(req(R.choice(ASK), h=(basic(b"u", b"p"),)))])
    # longer names: what only begins with the name of a restricted area, and what is really inside it
    for a in (b"/a", b"/admin", b"/a/b", b"/a-rather-long-name/with/parts", b"/" + b"n" * 200):
        for z in ("r", "p"):
            more = [a + t * k for t in (b"b", b"-", b"/b", b"/", b"%2f", b".") for k in (1, 3, 7, 20, 300)] + [a[:-k] for k in range(1, min(4, len(a) - 1))] + [a + b"bcdef/g/h", a + b"/bcdef/g/h", b"/x" + a, b"/" + a, a + b"/.."]
            for i in range(0, len(more), 7):
                cases.append(["basic;%s" % T(b"r"), U("a", b"u", b"p")] + RES + [Z("r", a if z == "r" else b""), Z(z, a), C()] + [S(req(q)) for q in more[i:i + 7]] + [S(req(a, h=(basic(b"u", b"p"),)))])
    # nobody to ask: without users nothing is restricted
    cases.append(["basic;%s" % T(b"r")] + RES + [Z("r", b""), C()] + [S(req(q)) for q in ASK[:6]] + [U("a", b"u", b"p")] + [S(req(q)) for q in ASK[:6]] + [U("r", b"u")] + [S(req(q)) for q in ASK[:6]])
    # Authorization headers
    good = b64(b"u:p"); heads = [b"", b"Basic", b"Basic ", b"basic " + good, b"BASIC " + good, b"Basic  " + good, b"Basic\t" + good, b"Basic " + good + b" ", b"Bearer " + good, b"Basic " + good[:-1], b"Basic " + good + b"=", b"Basic !" + good, b"Basic " + b64(b"u"), b"Basic " + b64(b":p"), b"Basic " + b64(b":"), b"Basic " + b64(b"u:"), b"Basic " + b64(b"u:p:q"), b"Basic " + b64(b"u:p\0"), b"Basic " + b64(b"u\0:p"), b"Basic " + b64(b"U:p"), b"Basic " + b64(b"u:P"), b"Basic " + b64(b"u:pp"), b"Basic u:p", b"Basic " + b64(b"\r\n:p"), b"X Basic " + good, good]
    for i in range(0, len(heads), 6):
        for pw in (b"p", b"", b"p:q"):
            cases.append(["basic;%s" % T(b"my realm"), U("a", b"u", pw), U("a", b"", b"p")] + RES + [Z("r", b"/a"), C()] + [S(req(b"/a", R.choice([b"GET", b"POST", b"HEAD"]), h=((b"Authorization", h),))) for h in heads[i:i + 6]] + [S(req(b"/a", h=(basic(b"u", pw),)))])
    # users come and go
    def users(ops, names):
        k = R.random(); n = R.choice(names)
        ops.append(U("a" if k < .5 else "u" if k < .8 else "r", n, R.choice(P[:4]) if k < .8 else b""))
    for _ in range(1500 if big else 130):
        ops = ["basic;%s" % T(b"R")] + RES; names = R.sample(N, 3); areas = R.sample(AREAS, 2)
        for a in areas: ops.append(Z(R.choice("rrp"), a))
        if R.random() < .4: ops.append(RD(R.choice(ASK), R.choice(ASK)))
        users(ops, names); ops.append(C())
        for _ in range(R.randrange(6, 16)):
            k = R.random()
            if k < .3: users(ops, names)
            elif k < .38: ops.append(Z(R.choice("rp"), R.choice(AREAS)))
            elif k < .45: ops.append("T;%d" % R.choice([1, 179, 181, 299, 301, 3600, 100000]))
            else:
                def rq():
                    h = () if R.random() < .2 else ((b"Authorization", R.choice(heads)),) if R.random() < .1 else (basic(R.choice(names), R.choice(P[:4])),)
                    return req(R.choice(ASK) + R.choice([b"", b"", b"?user=u"]), R.choice([b"GET", b"GET", b"HEAD", b"POST"]), h=h)
                ops.append(S(b"".join(rq() for _ in range(R.choice([1, 1, 1, 2, 3])))))
        cases.append(ops)
    # sessions
    def login(n, p, base=b"/login", url=None, m=b"GET", h=()):
        q = b"user=" + pct(n) + b"&pass=" + pct(p) + (b"" if url is None else b"&url=" + url)
        return req(base + b"?" + q, m, h=h)
    for red in (b"", b"/welcome"):
        au = "cookie;%s;%s;%s" % (T(b"/login"), T(b"/logout"), T(red))
        base = [au, U("a", b"u", b"p"), U("a", b"v", b"q")] + RES + [A(b"/welcome", "w"), Z("r", b"/a"), Z("p", b"/a/b"), C()]
        URLS = [None, b"", b"/a", b"http%3a%2f%2fx%2fy", b"%0d%0aX:y", b"/a%0aSet-Cookie:z", b"/a%0d", b"a+b", b"%20", b"/%3cb%3e"]
        for url in URLS:
            for m in (b"GET", b"POST", b"HEAD"):
                cases.append(base + [S(login(b"u", b"p", url=url, m=m)), K(0, b"GET /a HTTP/1.1\r\nCookie: pion_session_id=", b"\r\n\r\n"), S(login(b"u", b"x", url=url, m=m)), K(0, req(b"/logout" + (b"" if url is None else b"?url=" + url), m)[:-2] + b"Cookie: pion_session_id=", b"\r\n\r\n"), K(0, b"GET /a HTTP/1.1\r\nCookie: pion_session_id=", b"\r\n\r\n"), S(req(b"/a"))])
        cases.append(base + [S(login(b"u", b"p")), S(login(b"v", b"q")), S(login(b"u", b"p", b"/login/"))] + [K(j, b"GET /a HTTP/1.1\r\nCookie: x=1; pion_session_id=", b"; y=2\r\n\r\n") for j in (0, 1, 2)] + [K(1, b"GET /logout/ HTTP/1.1\r\nCookie: pion_session_id=", b"\r\n\r\n")] + [K(j, b"GET /a HTTP/1.1\r\nCookie: pion_session_id=", b"\r\n\r\n") for j in (0, 1, 2)])
        cases.append(base + [S(login(b"u", b"p"))] + [K(0, b"GET " + r + b" HTTP/1.1\r\nCookie: " + n, e + b"\r\n\r\n") for r in (b"/a", b"/x") for n, e in ((b"pion_session_id=", b""), (b"pion_session_id=\"", b"\""), (b"PION_SESSION_ID=", b""), (b"pion_session_id=", b"x"), (b"pion_session_id=x", b""), (b"pion_session=", b""), (b"a=", b""))])
        cases.append(base + [S(login(b"u", b"p"))] + [x for _ in range(5) for x in ("T;3600", K(0, b"GET /a HTTP/1.1\r\nCookie: pion_session_id=", b"\r\n\r\n"))] + ["T;7201", K(0, b"GET /a HTTP/1.1\r\nCookie: pion_session_id=", b"\r\n\r\n"), S(login(b"u", b"p")), K(1, b"GET /a HTTP/1.1\r\nCookie: pion_session_id=", b"\r\n\r\n"), K(0, b"GET /a HTTP/1.1\r\nCookie: pion_session_id=", b"\r\n\r\n")])
        # four sessions of two users: what happens to one must not happen to another
        def see(j): return K(j, b"GET /a HTTP/1.1\r\nCookie: pion_session_id=", b"\r\n\r\n")
        def bye(j): return K(j, b"GET /logout HTTP/1.1\r\nCookie: pion_session_id=", b"\r\n\r\n")
        EV = [[bye(j)] for j in (0, 1, 2, 3)] + [[U("r", b"u")], [U("r", b"u"), U("a", b"u", b"p")], [U("u", b"u", b"z")], [U("r", b"v")], ["T;1900"] + [see(1)] + ["T;1900"], ["T;3000", see(0), "T;3000"], ["T;7201"], [S(login(b"u", b"wrong"))], [S(login(b"nobody", b"p"))]]
        who = (b"u", b"v", b"u", b"u")
        for x in EV:
            for y in (EV if big else R.sample(EV, 3)):
                cases.append(base + [S(login(w, b"p" if w == b"u" else b"q")) for w in who] + x + [see(j) for j in range(4)] + y + [see(j) for j in (3, 2, 1, 0)])
        for _ in range(1500 if big else 70):
            ops = [au] + RES + [A(b"/welcome", "w")]; names = R.sample(N, 2) + [b"u"]; areas = R.sample(AREAS, 2) + ([b"/welcome"] if R.random() < .3 else [])
            for a in areas: ops.append(Z(R.choice("rrp"), a))
            if R.random() < .5: ops.append(RD(R.choice(ASK + [b"/login", b"/logout"]), R.choice(ASK + [b"/login", b"/welcome"])))
            ops.append(U("a", b"u", R.choice(P[:4]))); ops.append(C())
            for _ in range(R.randrange(8, 20)):
                k = R.random()
                if k < .12: users(ops, names)
                elif k < .16: ops.append(Z(R.choice("rp"), R.choice(AREAS)))
                elif k < .28: ops.append("T;%d" % R.choice([1, 60, 1800, 3600, 7201, 100000]))
                elif k < .5: ops.append(S(login(R.choice(names), R.choice(P[:4]), R.choice([b"/login", b"/login", b"/login/", b"/Login", b"/login/x"]), R.choice(URLS + [None] * 5), R.choice([b"GET", b"GET", b"POST", b"HEAD"]))))
                else:
                    r = R.choice(ASK + [b"/logout", b"/welcome", b"/welcome/", b"/logout?url=%2fbye", b"/logout/?url=a%0d%0aX:%20y"])
                    if R.random() < .25: ops.append(S(req(r, h=R.choice([(), ((b"Cookie", b"pion_session_id=AAAA"),), ((b"Cookie", b"a=b"),), (basic(b"u", b"p"),)]))))
                    else: ops.append(K(R.randrange(0, 4), req(r, R.choice([b"GET", b"GET", b"HEAD"]))[:-2] + b"Cookie: " + R.choice([b"", b"a=b; "]) + b"pion_session_id=", b"\r\n\r\n" + (req(R.choice(ASK)) if R.random() < .2 else b"")))
            cases.append(ops)
    decide(ctx, cases)
