"""P01-P06: HTTP parsing. Cases are made from the specification's own state graph (HttpReach), from a
message grammar, and by corrupting/cutting/losing bytes; the real parser runs them under many divisions
into reads; HttpTrace (TLC) decides each recorded outcome."""
import re, json, random
import vf
from vf import rle, runs_text, CheckError

SRCS = ["src/http_parser.cpp", "src/http_message.cpp", "src/http_types.cpp", "src/algorithm.cpp", "src/logger.cpp"]
def harness(): return vf.build("h_http", "h_http.cpp", SRCS, ["-O1"] + vf.SAN)

REACH = """SPECIFICATION Spec
VIEW View
INVARIANTS Inv Framed ErrFinal BulkLemma Report
CHECK_DEADLOCK FALSE
CONSTANTS
  STATUS_MESSAGE_MAX = 3
  METHOD_MAX = 2
  RESOURCE_MAX = 3
  QUERY_STRING_MAX = 3
  HEADER_NAME_MAX = 20
  HEADER_VALUE_MAX = 8
  MaxTokens = %d
  Request = %s
  HeadReply = %s
  Pay = %s
  Max = %d
"""
def reach(ctx, depth, isreq, head=False, pay=False, mx=3):
    """shortest inputs into every control state of the specification"""
    t = ctx.model("HttpReach", REACH % (depth, str(isreq).upper(), str(head).upper(), str(pay).upper(), mx), workers=1)
    out = [bytes(int(x) for x in re.findall(r"\d+", l)) for l in t.prints]
    if len(out) < 10: raise CheckError("HttpReach found only %d control states" % len(out))
    return out

class Cases:
    """collects cases: option record, common prefix, alternatives"""
    def __init__(s): s.recs = []; s.n = 0; s.text = []; s.desc = {}
    def add(s, o, alts, pre=b"", pol="wr2", seed=1, reuse=0):
        """alts: list of op lists; op = bytes (data) or int (loss)"""
        al = []
        for ops in alts:
            s.n += 1; i = s.n
            lines = ["case %d %d %d %d %d %d %d %s %d" % (i, o["isreq"], o["max"], o["pay"], o["honly"], o["head"], reuse, pol, seed)]
            full = list(ops)
            if pre:
                if full and isinstance(full[0], bytes): full[0] = pre + full[0]
                else: full.insert(0, pre)
            # neighbouring data operations are one piece of data: the divisions are the policy's business
            for x in full:
                if isinstance(x, bytes):
                    if x: lines.append("D " + runs_text(x))
                else: lines.append("M %d" % x)
            lines.append("end\n")
            s.text.append((i, "\n".join(lines)))
            s.desc[i] = (o, full, pol)
            al.append({"id": i, "ops": [({"k": "D", "d": rle(x), "n": 0} if isinstance(x, bytes) else {"k": "M", "d": [], "n": x})
                                        for x in ops if x != b""]})
        s.recs.append({"o": {k: (bool(v) if k != "max" else v) for k, v in o.items()}, "pre": rle(pre), "alts": al})

def opts(isreq=True, max=1048576, pay=False, honly=False, head=False):
    return {"isreq": int(isreq), "max": max, "pay": int(pay), "honly": int(honly), "head": int(head)}

def show(case):
    o, full, pol = case
    d = [(x if len(x) <= 300 else x[:200] + b"...(%d bytes)" % len(x)).decode("latin-1") if isinstance(x, bytes) else {"lost": x} for x in full]
    return {"options": o, "input": d, "divisions": pol}

def brief(outs):
    def s(m):
        r = {k: m.get(k) for k in ("v", "ec", "val", "st", "prem", "n", "cl") if k in m}
        if m.get("b"): r["body"] = vf.unrle(m["b"])[:60].decode("latin-1")
        if m.get("m"): r["line"] = b" ".join(vf.unrle(m[k])[:60] for k in ("m", "r", "q")).decode("latin-1")
        if m.get("h"): r["h"] = [(vf.unrle(a)[:30] + b": " + vf.unrle(b)[:40]).decode("latin-1") for a, b in m["h"]][:8]
        return r
    return [[s(m) for m in o] for o in outs]

def decide(ctx, cases, prop, chunk=6000):
    b = harness()
    outs = vf.run_batch(b, cases.text)
    runs = sum(o.get("runs", 1) for o in outs.values())
    ctx.log("ran %d cases, %d parses" % (len(outs), runs))
    recs = []; bad = {}
    for r in cases.recs:
        al = []
        for a in r["alts"]:
            o = outs[a["id"]]
            if "crash" in o: bad[a["id"]] = "crash or hang: " + o["crash"][-1500:]
            else: al.append(dict(a, outs=o["outs"]))
        if al: recs.append(dict(r, alts=al))
    ids = {a["id"] for r in recs for a in r["alts"]}
    rej, t = vf.validate("HttpTrace" if prop != "P01" else "SplitTrace", "HttpTrace.cfg" if prop != "P01" else "SplitTrace.cfg",
                         recs, env={"PROP": prop}, expect=ids)
    ctx.log("trace states", t.distinct, "rejected", len(rej), "crashed", len(bad))
    ctx.states += t.distinct; ctx.transitions += t.states; ctx.validated += len(ids)
    if rej or bad:      # report only what a second run repeats
        again = vf.run_batch(b, [c for c in cases.text if c[0] in rej or c[0] in bad], nproc=2)
        for i in sorted(set(rej) | set(bad)):
            if ("crash" in again[i]) != ("crash" in outs[i]) or ("outs" in again[i] and again[i]["outs"] != outs[i]["outs"]):
                ctx.log("case", i, "is not repeatable: ignored"); continue
            o = outs[i]
            ctx.violation("%s: recorded %s" % (rej.get(i, bad.get(i)), json.dumps(brief(o["outs"]))[:900] if "outs" in o else "crash"),
                          {"case": show(cases.desc[i]), "verdict": rej.get(i, bad.get(i)), "recorded": brief(o["outs"]) if "outs" in o else o["crash"], "how": o.get("how"),
                           "harness_input": dict(cases.text)[i][:20000]})
    for c in list(cases.desc.values())[:3]: ctx.sample(json.dumps(show(c)))
    return runs

# ------------------------------------------------------------------ message grammar
TOKEN = bytes(b for b in range(33, 127) if chr(b) not in '()<>@,;:\\"/[]?={} ')
class Gen:
    def __init__(s, rng): s.r = rng
    def token(s, lo=1, hi=8): return bytes(s.r.choice(TOKEN) for _ in range(s.r.randint(lo, hi)))
    def text(s, lo=0, hi=16):
        al = [b for b in range(256) if b >= 32 and b != 127] + [9] * 3
        return bytes(s.r.choice(al) for _ in range(s.r.randint(lo, hi)))
    def uri(s):
        al = [b for b in range(33, 256) if b not in (127, 63)]
        u = b"/" + bytes(s.r.choice(al) if s.r.random() < .2 else s.r.choice(b"abz/.%20-_~") for _ in range(s.r.randint(0, 14)))
        q = None
        if s.r.random() < .5:
            q = bytes(s.r.choice(al + [63]) if s.r.random() < .2 else s.r.choice(b"ab=&,%41+?") for _ in range(s.r.randint(0, 16)))
        return u, q
    def eol(s, style): return {0: b"\r\n", 1: b"\n", 2: b"\r"}[style]
    def headers(s, n=None):
        out = []
        for _ in range(s.r.randint(0, 5) if n is None else n):
            if out and s.r.random() < .3:
                k = out[s.r.randrange(len(out))][0]
                k = k.swapcase() if s.r.random() < .5 else k
            else: k = s.token()
            if k.lower() in (b"content-length", b"transfer-encoding"): continue
            out.append((k, s.text()))
        return out
    def body(s, n):
        k = s.r.random()
        if k < .4: return bytes(s.r.randrange(256) for _ in range(n))
        if k < .6: return (b"GET / HTTP/1.1\r\n\r\n" * (n // 18 + 1))[:n]
        return bytes([s.r.choice(b"x\r\n0")]) * n
    def size(s, n):
        t = b"%x" % n
        if s.r.random() < .4: t = t.upper()
        if s.r.random() < .3: t = b"0" * s.r.randint(1, 4) + t
        return t
    def chunks(s, body, trailers=None, style=0):
        out = b""; i = 0
        while i < len(body):
            n = min(len(body) - i, s.r.choice([1, 2, 3, 5, 10, 15, 16, 17, 40, 255, 256, 300]))
            out += s.lead() + s.size(n) + s.ext() + b"\r\n" + body[i:i+n] + b"\r\n"; i += n
        out += s.lead() + b"0" * s.r.choice([1, 1, 2, 5]) + s.ext() + b"\r\n"
        tr = [] if trailers is None else trailers
        for k, v in tr: out += k + b": " + v + b"\r\n"
        return out + b"\r\n"
    def lead(s): return s.r.choice([b"", b"", b"", b" ", b"\t", b"\r\n", b"  \n"])
    def ext(s): return s.r.choice([b"", b"", b"", b" ", b"\t ", b";a=b", b";", b";x y\n:z", b";q=\"\x01\xff\""])
    def line_headers(s, hs, style):
        out = b""
        for k, v in hs:
            e = s.eol(style)
            if v and v[:1] != b" " and v[0] in TOKEN and s.r.random() < .3: sep = b":"
            elif not v and s.r.random() < .5: sep = b":"
            else: sep = b": "
            out += k + sep + v + e
        return out
    def request(s, mx=1048576, framing=None, style=None, bodylen=None):
        m = s.r.choice([b"GET", b"POST", b"HEAD", b"PUT", s.token()])
        u, q = s.uri()
        style = s.r.choice([0, 0, 0, 1, 2]) if style is None else style
        pre = s.r.choice([b"", b"", b"", b"\r\n", b" \n"])
        v = s.r.choice([b"HTTP/1.1", b"HTTP/1.1", b"HTTP/1.0", b"HTTP/1.1 ", b"HTTP/2.0", b"HTTP/12.345"])
        line = pre + m + b" " + u + (b"?" + q if q is not None else b"") + b" " + v + s.eol(style)
        hs = s.headers()
        framing = framing or s.r.choice(["none", "cl", "cl", "chunked", "cl0"])
        return s.finish(line, hs, framing, style, mx, bodylen)
    def response(s, mx=1048576, framing=None, style=None, status=None, bodylen=None):
        style = s.r.choice([0, 0, 0, 1, 2]) if style is None else style
        sc = status or s.r.choice([200, 200, 206, 404, 500, 99, 299, 600, 9999])
        line = s.r.choice([b"HTTP/1.1", b"HTTP/1.0", b"HTTP/3.14"]) + b" %d" % sc
        k = s.r.random()
        if k < .7: line += b" " + bytes(x for x in s.text(0, 12) if x != 9)
        line += s.eol(style)
        hs = s.headers()
        framing = framing or s.r.choice(["cl", "cl", "chunked", "cl0", "none"])
        return s.finish(line, hs, framing, style, mx, bodylen)
    def finish(s, line, hs, framing, style, mx, bodylen=None):
        body = b""
        n = bodylen if bodylen is not None else s.r.choice([1, 2, 3, 7, 20, 60, max(1, min(mx - 1, 90)), min(max(mx, 1), 91), min(mx + 1, 92)])
        if framing == "cl":
            d = b"%d" % n
            d = s.r.choice([d, d, d, b"0" + d, b"  " + d, d + b" ", d + b"\t"])
            hs.insert(s.r.randint(0, len(hs)), (s.r.choice([b"Content-Length", b"content-length", b"CONTENT-LENGTH"]), d)); body = s.body(n)
        elif framing == "cl0":
            hs.insert(s.r.randint(0, len(hs)), (b"Content-Length", s.r.choice([b"0", b"00", b" 0 "])))
        elif framing == "chunked":
            hs.insert(s.r.randint(0, len(hs)), (s.r.choice([b"Transfer-Encoding", b"transfer-encoding"]), s.r.choice([b"chunked", b"Chunked", b"gzip, chunked", b"CHUNKED"])))
            if s.r.random() < .15: hs.insert(s.r.randint(0, len(hs)), (b"Content-Length", b"%d" % s.r.choice([0, 3, n])))
            body = s.chunks(s.body(n), s.headers(s.r.randint(1, 3)) if s.r.random() < .4 else None)
        elif framing == "close":
            body = s.body(n)
        # avoid a name that begins a line after a bare CR or LF being swallowed: end the head in the same style
        return line + s.line_headers(hs, style) + s.eol(style) + body

def mutate(rng, d):
    d = bytearray(d)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random(); i = rng.randrange(len(d)) if d else 0
        if k < .35: d[i:i+1] = bytes([rng.randrange(256)])
        elif k < .6: d[i:i] = bytes([rng.choice([0, 9, 10, 13, 32, 58, 59, 127, 128, 255, rng.randrange(256)])])
        elif k < .8: del d[i:i+1]
        elif k < .9: d[i:i+2] = d[i:i+2][::-1]
        else: del d[i:]
    return bytes(d)
def plain_framing(d):
    l = d.lower()
    return l.count(b"content-length") <= 1 and l.count(b"transfer-encoding") <= 1

# ------------------------------------------------------------------ the specification itself
MC = """SPECIFICATION Spec
INVARIANTS Decoded NeverFails CutJudged
%s
CHECK_DEADLOCK FALSE
CONSTANTS
  STATUS_MESSAGE_MAX = 3
  METHOD_MAX = 2
  RESOURCE_MAX = 3
  QUERY_STRING_MAX = 3
  HEADER_NAME_MAX = 20
  HEADER_VALUE_MAX = 8
  Request = %s
  Count = %d
  Max = %d
  Pay = %s
  Level = %d
"""
def design(ctx):
    L = "PROPERTY AllDelivered"
    ctx.model("HttpMC", MC % (L, "TRUE", 1, 2, "FALSE", 2))
    ctx.model("HttpMC", MC % (L, "FALSE", 1, 9, "TRUE", 2))
    ctx.model("HttpMC", MC % ("", "TRUE", 2, 2, "FALSE", 0))
    if ctx.thorough:
        ctx.model("HttpMC", MC % ("", "FALSE", 2, 2, "FALSE", 1), timeout=1800)
        ctx.model("HttpMC", MC % ("", "TRUE", 2, 9, "FALSE", 1), timeout=3600, heap="16g")
        ctx.model("HttpMC", MC % ("", "TRUE", 3, 2, "TRUE", 0), timeout=3600, heap="16g")

def rand_opts(r, isreq=None, max=None):
    q = r.random() < .6 if isreq is None else isreq
    return opts(isreq=q, max=r.choice([1048576, 1048576, 0, 1, 5, 50]) if max is None else max,
                pay=r.random() < .25, head=(not q) and r.random() < .15)

def add_reach(ctx, c, depth=14, pairs=(), single=True, pol="wb", more_opts=False):
    """every control state of the specification, continued with every byte / with pairs"""
    sets = [(opts(True, 3), reach(ctx, depth, True)), (opts(False, 3), reach(ctx, depth, False))]
    if more_opts:
        sets += [(opts(False, 3, head=True), reach(ctx, depth, False, head=True)), (opts(True, 3, pay=True), reach(ctx, depth, True, pay=True)),
                 (opts(False, 0), reach(ctx, depth, False, mx=0))]
    for o, pre in sets:
        for x in pre:
            al = [[bytes([b])] for b in range(256)] if single else []
            al += [[p] for p in pairs]
            c.add(o, al, pre=x, pol=pol)

REP = [0, 9, 10, 13, 32, 48, 53, 58, 59, 63, 65, 72, 127, 200]

def pipeline(g, r, o, mx):
    if o["isreq"]: return b"".join(g.request(mx) for _ in range(r.randint(1, 4)))
    return b"".join(g.response(mx, framing=r.choice(["cl", "chunked", "cl0"]) if not last else r.choice(["cl", "chunked", "cl0", "close"]))
                    for last in [False] * r.randint(0, 2) + [True])

def P01(ctx):
    c = Cases(); g = Gen(ctx.rng); r = ctx.rng; k = 8 if ctx.thorough else 1
    design(ctx)
    n = 0
    for i in range(700 * k):
        o = rand_opts(r); o["honly"] = int(r.random() < .1)
        d = pipeline(g, r, o, o["max"])
        if len(d) > 1500: d = d[:1500]
        c.add(o, [[d]], pol="wbtr6", seed=i, reuse=int(r.random() < .5))
        d = mutate(r, g.request(o["max"]) if o["isreq"] else g.response(o["max"]))
        if plain_framing(d) and d: c.add(o, [[d]], pol="wbtr2", seed=i)
        d = g.request(o["max"]) if o["isreq"] else g.response(o["max"])
        cut = r.randrange(len(d)); lost = r.choice([1, 2, 5, 30])
        c.add(o, [[d[:cut], lost, d[cut+lost:]]], pol="wbtr3", seed=i)
    # forms, cookies and long strings, whose parts must survive any division too
    for i in range(150 * k):
        body = form_body(r)
        d = b"POST /f?a=%%41&b=1,2 HTTP/1.1\r\nCookie: a=\"x;y\"; b=2\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n" % len(body) + body
        c.add(opts(True, r.choice([1048576, 20])), [[d + b"GET / HTTP/1.0\r\n\r\n"]], pol="wbtr3", seed=i)
        body = multipart_body(r)
        d = b"POST /m HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=BB\r\nContent-Length: %d\r\n\r\n" % len(body) + body
        c.add(opts(True), [[d]], pol="wbtr3", seed=i)
    for d in big_messages(): c.add(opts(True), [[d]], pol="wr%d" % (12 * k), seed=7)
    add_reach(ctx, c, pol="wb")
    ctx.extra_cov["parses"] = decide(ctx, c, "P01")

def form_body(r): return bytes(r.choice(b"abc=&%2B+,;\r\n\t.") for _ in range(r.randint(0, 60)))
def multipart_body(r):
    out = b""
    for _ in range(r.randint(1, 3)):
        out += b"--BB\r\nContent-Disposition: form-data; name=\"%s\"\r\n" % bytes(r.choice(b"abc") for _ in range(r.randint(1, 3)))
        if r.random() < .4: out += b"Content-Type: " + r.choice([b"text/plain", b"image/png"]) + b"\r\n"
        out += b"\r\n" + bytes(r.choice(b"ab-\r\n\x00\xff") for _ in range(r.randint(0, 20))) + b"\r\n"
    return out + b"--BB--\r\n"
def big_messages():
    yield b"GET /" + b"u" * 70000 + b" HTTP/1.1\r\nA: " + b"v" * 100000 + b"\r\nContent-Length: 150000\r\n\r\n" + b"z" * 150000
    yield b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + b"".join(b"%x\r\n" % n + b"q" * n + b"\r\n" for n in (1, 4095, 4096, 8192, 70000)) + b"0\r\nT: u\r\n\r\n"

def P02(ctx):
    c = Cases(); g = Gen(ctx.rng); r = ctx.rng; k = 6 if ctx.thorough else 1
    design(ctx)
    for i in range(1100 * k):
        o = rand_opts(r)
        if r.random() < .08: o["honly"] = 1
        c.add(o, [[pipeline(g, r, o, o["max"])]], pol="wr2", seed=i, reuse=int(r.random() < .5))
    # every framing x status x method x limit, followed by another message
    for sc in (100, 101, 102, 199, 200, 201, 203, 204, 205, 206, 299, 300, 303, 304, 305, 400, 404, 500):
        for head in (False, True):
            for fr in ("none", "cl0", "cl", "chunked"):
                for mx in (1048576, 4):
                    for pay in (False, True):
                        d = g.response(mx, framing=fr, style=0, status=sc, bodylen=r.choice([3, 4, 5, 9]))
                        c.add(opts(False, mx, head=head, pay=pay), [[d + b"HTTP/1.0 200 Next\r\nContent-Length: 1\r\n\r\nZ"]], pol="wb")
    for meth in (b"GET", b"HEAD", b"POST", b"PUT", b"DELETE", b"OPTIONS", b"TRACE", b"CONNECT"):
        for fr in ("none", "cl0", "cl", "chunked"):
            for mx in (1048576, 4, 0):
                for pay in (False, True):
                    d = g.finish(meth + b" /x HTTP/1.1\r\n", [], fr, 0, mx, r.choice([1, 3, 4, 5, 9]))
                    c.add(opts(True, mx, pay=pay), [[d + b"GET /next HTTP/1.0\r\n\r\n"]], pol="wb")
    # lengths around the limit, and around the default limit
    for mx in (0, 1, 2, 10, 100):
        for n in {max(1, mx - 1), max(1, mx), mx + 1, mx + 2, 2 * mx + 3}:
            for fr in ("cl", "chunked"):
                d = g.finish(b"POST / HTTP/1.1\r\n", [], fr, 0, mx, n)
                c.add(opts(True, mx), [[d + b"GET /n HTTP/1.1\r\n\r\n"]], pol="wbr3", seed=n)
                d = g.finish(b"HTTP/1.1 200 OK\r\n", [], fr, 0, mx, n)
                c.add(opts(False, mx), [[d + b"HTTP/1.1 204 N\r\n\r\n"]], pol="wbr3", seed=n)
                c.add(opts(False, mx), [[b"HTTP/1.1 200 OK\r\n\r\n" + g.body(n)]], pol="wbr3", seed=n)
    M = 1048576
    for n in (M - 1, M, M + 1, M + 70000):
        c.add(opts(True), [[b"POST / HTTP/1.1\r\nContent-Length: %d\r\n\r\n" % n + b"a" * n + b"GET /n HTTP/1.1\r\n\r\n"]], pol="wr2")
        c.add(opts(True), [[b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n" % n + b"a" * n + b"\r\n0\r\n\r\nGET /n HTTP/1.1\r\n\r\n"]], pol="wr2")
        c.add(opts(False), [[b"HTTP/1.1 200 OK\r\n\r\n" + b"a" * n]], pol="wr2")
    # simple requests and odd line endings with a follower
    for e in (b"\r\n", b"\n", b"\r", b"\r\n\r\n", b"\n\n", b"\r\r", b"\n\r\n", b"\n\r\n\r"):
        for line in (b"GET /", b"GET / ", b"GET /?", b"GET /?a=b", b"GET /?a=b ", b"GET / HTTP/0.9", b"GET / HTTP/1.0", b"GET / HTTP/1.1"):
            for nx in (b"GET /n HTTP/1.1\r\n\r\n", b"\r\nGET /n\r\n", b""):
                c.add(opts(True), [[line + e + nx]], pol="wb")
                c.add(opts(True), [[line + e + b"A: b" + e + e + nx]], pol="wb")
    ctx.extra_cov["parses"] = decide(ctx, c, "P02")

def P03(ctx):
    c = Cases(); g = Gen(ctx.rng); r = ctx.rng; k = 6 if ctx.thorough else 1
    design(ctx)
    for i in range(1400 * k):
        o = rand_opts(r, max=1048576); o["honly"] = int(r.random() < .3)
        d = g.request() if o["isreq"] else g.response(framing=r.choice(["cl", "cl0", "chunked"]))
        c.add(o, [[d]], pol="wr1", seed=i, reuse=0)
        if i % 3 == 0: c.add(o, [[pipeline(g, r, o, 1048576)]], pol="w", reuse=1)
    # every byte in every position of a start line and a header
    for pos, mk in enumerate([lambda b: b"G" + b + b"T / HTTP/1.1\r\n\r\n", lambda b: b + b"ET / HTTP/1.1\r\n\r\n", lambda b: b"GET /a" + b + b"c HTTP/1.1\r\n\r\n", lambda b: b"GET /a?" + b + b"c HTTP/1.1\r\n\r\n",
                              lambda b: b"GET /a?x" + b + b" HTTP/1.1\r\n\r\n", lambda b: b"GET " + b + b" HTTP/1.1\r\n\r\n", lambda b: b"GET / HTTP/1.1\r\n" + b + b": v\r\n\r\n", lambda b: b"GET / HTTP/1.1\r\nx" + b + b"y: v\r\n\r\n",
                              lambda b: b"GET / HTTP/1.1\r\nx:" + b + b"\r\n\r\n", lambda b: b"GET / HTTP/1.1\r\nx: " + b + b"\r\n\r\n", lambda b: b"GET / HTTP/1.1\r\nx: a" + b + b"c\r\n\r\n",
                              lambda b: b"GET / HTTP/1.1\r\nx: a\r\n" + b + b"y: b\r\n\r\n", lambda b: b"GET / HTTP/1.1" + b + b"\r\n\r\n", lambda b: b"GET / HTTP/1." + b + b"\r\n\r\n"]):
        c.add(opts(True), [[mk(bytes([b]))] for b in range(256)], pol="w")
    for mk in [lambda b: b"HTTP/1.1 2" + b + b"0 OK\r\n\r\n", lambda b: b"HTTP/1.1 200" + b + b"OK\r\n\r\n", lambda b: b"HTTP/1.1 200 " + b + b"K\r\n\r\n", lambda b: b"HTTP/1.1" + b + b"200 OK\r\n\r\n", lambda b: b"HTTP/" + b + b".1 200 OK\r\n\r\n"]:
        c.add(opts(False, honly=True), [[mk(bytes([b]))] for b in range(256)], pol="w")
    # numbers
    for n in list(range(0, 1000, 37)) + [65535, 65534, 9999, 10000, 65536, 65537, 70000, 99999, 655350, 4294967296]:
        c.add(opts(False, honly=True), [[b"HTTP/1.1 %d OK\r\n\r\n" % n], [b"HTTP/%d.1 200 OK\r\n\r\n" % n], [b"HTTP/1.%d 200 OK\r\n\r\n" % n], [b"HTTP/1.1 0%d\r\n\r\n" % n]], pol="w")
    # many headers, repeated names
    for n in (10, 60, 200):
        c.add(opts(True), [[b"GET / HTTP/1.1\r\n" + b"".join(b"N%d: v%d\r\n" % (i % (n // 5), i) for i in range(n)) + b"\r\n"]], pol="wr1")
    add_reach(ctx, c, pairs=[b"\r\n\r\n", b"\n\n", b"\r\r", b" HTTP/1.1\r\n\r\n", b"Z: z\r\n\r\n", b": z\r\n\r\n", b" 200 OK\r\n\r\n"], single=False, pol="w")
    ctx.extra_cov["parses"] = decide(ctx, c, "P03")

def P04(ctx):
    c = Cases(); g = Gen(ctx.rng); r = ctx.rng
    design(ctx)
    add_reach(ctx, c, pairs=[bytes([a, b]) for a in REP for b in REP] if ctx.thorough else [], single=True, pol="wb" if ctx.thorough else "w", more_opts=True)
    # lengths around every limit
    for lim, mk, rq in [(1024, lambda n: b"M" * n + b" / HTTP/1.1\r\n\r\n", True), (262144, lambda n: b"GET " + b"/" * n + b" HTTP/1.1\r\n\r\n", True),
                        (1048576, lambda n: b"GET /?" + b"q" * n + b" HTTP/1.1\r\n\r\n", True), (1024, lambda n: b"GET / HTTP/1.1\r\n" + b"N" * n + b": v\r\n\r\n", True),
                        (1048576, lambda n: b"GET / HTTP/1.1\r\nN: " + b"v" * n + b"\r\n\r\n", True), (1048576, lambda n: b"GET / HTTP/1.1\r\nN:" + b"v" * n + b"\r\n\r\n", True),
                        (1024, lambda n: b"HTTP/1.1 204 " + b"S" * n + b"\r\n\r\n", False),
                        (1024, lambda n: b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n" + b"N" * n + b": v\r\n\r\n", True),
                        (1048576, lambda n: b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\nN: " + b"v" * n + b"\r\n\r\n", True)]:
        for n in (lim - 1, lim, lim + 1, lim + 2, lim * 2): c.add(opts(rq), [[mk(n)]], pol="wr1", seed=n)
    # content lengths
    vals = [b"0", b"5", b"+5", b"-1", b"-0", b"", b" ", b"a", b"5a", b"a5", b"5 5", b"5,5", b"0x5", b"5.0", b"1e1", b"05", b"\t5\t", b"18446744073709551615", b"18446744073709551616", b"99999999999999999999", b"184467440737095516150",
            b"9223372036854775808", b"4294967296", b"00000000000000000000000000005", b"5;", b"\xb2", b"5\x80"]
    for v in vals:
        for o in (opts(True, 10), opts(False, 10), opts(True, 10, honly=True), opts(True, 10, pay=True)):
            h = b"POST / HTTP/1.1\r\n" if o["isreq"] else b"HTTP/1.1 200 OK\r\n"
            c.add(o, [[h + b"Content-Length: " + v + b"\r\n\r\nabcdefgh"]], pol="w")
            c.add(o, [[h + b"Transfer-Encoding: chunked\r\nContent-Length: " + v + b"\r\n\r\n3\r\nabc\r\n0\r\n\r\n"]], pol="w")
        c.add(opts(False, 10, head=True), [[b"HTTP/1.1 200 OK\r\nContent-Length: " + v + b"\r\n\r\nabcdefgh"]], pol="w")
    # chunk syntax: every byte at every place of a chunked body
    base = b"2;x\r\nab\r\n1 \r\nc\r\n0\r\nT: u\r\n\r\n"
    for at in range(len(base)):
        c.add(opts(True, 10), [[base[:at] + bytes([b]) + base[at+1:]] for b in (range(256) if ctx.thorough else REP + [45, 66, 71, 97, 102, 103, 255])], pre=b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", pol="w")
        c.add(opts(True, 10), [[base[:at] + bytes([b]) + base[at:]] for b in REP], pre=b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", pol="w")
    for i in range(2500 * (6 if ctx.thorough else 1)):
        o = rand_opts(r)
        d = mutate(r, g.request(o["max"]) if o["isreq"] else g.response(o["max"]))
        if d and plain_framing(d): c.add(o, [[d]], pol="wr1", seed=i)
    ctx.extra_cov["parses"] = decide(ctx, c, "P04")

def P05(ctx):
    c = Cases(); g = Gen(ctx.rng); r = ctx.rng; k = 6 if ctx.thorough else 1
    design(ctx)
    head = b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"
    for i in range(1500 * k):
        o = rand_opts(r)
        d = g.request(o["max"], framing="chunked", style=0) if o["isreq"] else g.response(o["max"], framing="chunked", style=0)
        c.add(o, [[d + (g.request() if o["isreq"] else g.response(framing="cl"))]], pol="wr2", seed=i)
    # all partitions of small bodies into chunks, with limits
    body = b"ab\r\n0"
    for mask in range(16):
        parts = []; cur = body[:1]
        for i in range(1, 5):
            if mask >> (i-1) & 1: parts.append(cur); cur = b""
            cur += body[i:i+1]
        parts.append(cur)
        for mx in (1048576, 0, 1, 3, 5, 6):
            for pay in (False, True):
                for tr in (b"", b"T: u\r\n", b"T: u\r\nt:v\r\n"):
                    w = b"".join(b"%x\r\n" % len(x) + x + b"\r\n" for x in parts) + b"0\r\n" + tr + b"\r\n"
                    c.add(opts(True, mx, pay=pay), [[w + b"GET / HTTP/1.1\r\n\r\n"]], pre=head, pol="wb")
    # size notations
    for n in (1, 9, 10, 15, 16, 17, 255, 256, 4095, 4096, 65535, 65536):
        for f in ("%x", "%X", "0%x", "000000%X", "0000000000000000000000000%x"):
            for e in (b"", b" ", b"\t", b";", b";a", b" \t "):
                w = (f % n).encode() + e + b"\r\n" + b"d" * n + b"\r\n0" + e + b"\r\n\r\n"
                c.add(opts(True, 1048576, pay=n % 2 == 0), [[w + b"GET / HTTP/1.1\r\n\r\n"]], pre=head, pol="wr1", seed=n)
    for w in (b"7fffffff\r\nab", b"ffffffff\r\nab", b"100000000\r\nab", b"7fffffffffffffff\r\nab", b"ffffffffffffffffff\r\nab", b"80000000\r\nab"):
        c.add(opts(True, 10), [[w]], pre=head, pol="w")
    # chunk boundaries meeting the default limit
    M = 1048576
    for a, b in ((M - 1, 5), (M, 5), (M + 1, 5), (M - 3, 3), (10, M)):
        for pay in (False, True):
            w = b"%x\r\n" % a + b"A" * a + b"\r\n%x\r\n" % b + b"B" * b + b"\r\n0\r\nT: u\r\n\r\n"
            c.add(opts(True, pay=pay), [[w + b"GET / HTTP/1.1\r\n\r\n"]], pre=head, pol="wr2", seed=a)
    ctx.extra_cov["parses"] = decide(ctx, c, "P05")

def P06(ctx):
    c = Cases(); g = Gen(ctx.rng); r = ctx.rng; k = 5 if ctx.thorough else 1
    design(ctx)
    # every cut of a set of messages
    for i in range(30 * k):
        o = rand_opts(r)
        d = (g.request(o["max"], bodylen=r.choice([1, 4, 9])) if o["isreq"] else g.response(o["max"], framing=r.choice(["cl", "chunked", "close", "cl0"]), bodylen=r.choice([1, 4, 9])))
        d = d[:160]
        for cut in range(1, len(d)): c.add(o, [[d[:cut]]], pol="w")
    # every loss (position x length) in small bodies
    for o in (opts(True, 100), opts(True, 3), opts(True, 0), opts(True, 100, pay=True), opts(True, 3, pay=True)):
        for fr, b in (("cl", b"Content-Length: 6\r\n\r\nabcdef"), ("ch", b"Transfer-Encoding: chunked\r\n\r\n4\r\nabcd\r\n2\r\nef\r\n0\r\n\r\n"), ("tr", b"Transfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\nT: u\r\n\r\n")):
            al = []
            for cut in range(0, len(b) + 1):
                for n in (1, 2, 3, 4, 5, 6, 7, 40):
                    al.append([x for x in (b[:cut], n, b[cut+n:] + b"GET / HTTP/1.0\r\n\r\n") if x != b""])
                    if cut + n < len(b): al.append([x for x in (b[:cut], n, b[cut+n:cut+n+1], 1) if x != b""])
            c.add(o, al, pre=b"POST / HTTP/1.1\r\n", pol="w")
            c.add(dict(o, isreq=0), al, pre=b"HTTP/1.1 200 OK\r\n", pol="w")
    for mx in (100, 3, 0):
        for pay in (False, True):
            for cut in range(0, 5):
                for n in (1, 2, 5):
                    c.add(opts(False, mx, pay=pay), [[x for x in (b"abcd"[:cut], n, b"abcd"[cut:]) if x != b""], [x for x in (b"abcd"[:cut], n) if x != b""]], pre=b"HTTP/1.1 200 OK\r\n\r\n", pol="w")
    # random histories of data and losses
    for i in range(1200 * k):
        o = rand_opts(r)
        d = g.request(o["max"], framing=r.choice(["cl", "chunked"])) if o["isreq"] else g.response(o["max"], framing=r.choice(["cl", "chunked", "close"]))
        ops = []; at = 0
        hl = max(d.find(b"\r\n\r\n"), d.find(b"\n\n"), d.find(b"\r\r"))
        while at < len(d) and len(ops) < 9:
            n = r.choice([1, 2, 5, 20]) if at > hl else max(1, hl + r.randint(0, 6))
            ops.append(d[at:at+n]); at += n
            if at < len(d) and r.random() < .7:
                n = r.choice([1, 1, 2, 3, 8]); ops.append(n); at += n
        ops = [x for x in ops if x != b""]
        m = []
        for x in ops:
            if isinstance(x, bytes) and m and isinstance(m[-1], bytes): m[-1] += x
            else: m.append(x)
        if isinstance(m[0], int): continue
        c.add(o, [m], pol="wr1", seed=i)
    ctx.extra_cov["parses"] = decide(ctx, c, "P06")
