"""P07 - P09: query strings, cookies, multipart forms (spec/Forms.tla)."""
import itertools
import vf
T = vf.runs_text
SRC = ["src/http_parser.cpp", "src/http_message.cpp", "src/http_types.cpp", "src/algorithm.cpp", "src/tcp_timer.cpp"]
def binary(): return vf.build("h_form", "h_form.cpp", SRC, ["-O1"] + vf.SAN)

def decide(ctx, cases):
    """cases: lists of words"""
    b = binary()
    ctx.log("built")
    out = vf.run_batch(b, [(i, "%d %s\n" % (i, " ".join(c))) for i, c in enumerate(cases)])
    recs = []
    for i, c in enumerate(cases):
        if "crash" in out[i]: ctx.violation("%s: the code crashed, threw or hung: %s" % (" ".join(c)[:300], out[i]["crash"][-700:]), {"case": c})
        else: recs.append(out[i])
    rej, t = vf.validate("FormsTrace", "FormsTrace.cfg", recs)
    ctx.states += t.distinct; ctx.transitions += t.states; ctx.validated += len(recs)
    for i, why in sorted(rej.items()):
        ctx.violation("%s: %s; recorded %s" % (show(out[i]), why, {k: v for k, v in out[i].items() if k in ("ok",)}), out[i])
    ctx.log(len(recs), "calls decided,", len(rej), "rejected")
    for c in cases[:: max(1, len(cases) // 5)]: ctx.sample(" ".join(c))

def show(r):
    def f(v):
        if isinstance(v, list) and all(isinstance(x, int) for x in v): return repr(bytes(v))
        if isinstance(v, list): return "[" + ",".join(f(x) for x in v) + "]"
        return repr(v)
    return " ".join("%s=%s" % (k, f(v)) for k, v in r.items() if k != "id")[:700]

def rnd(ctx, al, lo, hi): return bytes(ctx.rng.choice(al) for _ in range(ctx.rng.randrange(lo, hi)))
def anyb(ctx, lo, hi): return bytes(ctx.rng.randrange(256) for _ in range(ctx.rng.randrange(lo, hi)))
def lst(xs): return "|".join(T(x) for x in xs) or "."
def mc(ctx, which, inv, al, n):
    ctx.model("FormsMC", "SPECIFICATION Spec\nCONSTANTS Alphabet = {%s}\n MaxLen = %d\n Which = \"%s\"\n" % (",".join(map(str, al)), n, which)
              + "".join("INVARIANT %s\n" % i for i in inv), timeout=800)

QAL = b"ab=&,%+2fF41 \t\r\n\x01\x7f\x80\xffZ;?"
def P07(ctx):
    big = ctx.thorough
    mc(ctx, "url", ["QueryBack", "QueryBound"], [37, 38, 43, 44, 50, 61, 65, 32, 0, 10, 255][: 11 if big else 9], 4 if big else 3)
    c = []
    for n in range(0, 6 if big else 5):
        for t in itertools.product(b"a=&,%4", repeat=n): c.append(["url", T(bytes(t))])
    for x in range(256):
        for s in (b"%cb=1&c=2", b"a=%cb&c=2", b"a%c", b"a=%c", b"a=1&%c=3", b"a=1,%c,&x"): c.append(["url", T(s.replace(b"%c", bytes([x])))])
    for _ in range(6000 if big else 2000): c.append(["url", T(rnd(ctx, QAL, 1, 40))])
    # dictionaries written and read again, repeated and differently cased names
    for _ in range(5000 if big else 1200):
        ps = []
        for _ in range(ctx.rng.randrange(0, 6)):
            nm = ctx.rng.choice([b"a", b"A", b"ab", b"x y", b"&=,", b"\xff%41"]) if ctx.rng.random() < .6 else bytes(ctx.rng.randrange(1, 256) for _ in range(ctx.rng.randrange(1, 10)))
            v = bytes(ctx.rng.randrange(1, 256) for _ in range(ctx.rng.randrange(0, 12))) if ctx.rng.random() < .6 else ctx.rng.choice([b"", b"1,2", b"a&b=c", b"+", b"%", b"%41", b"\r\n\t"])
            ps += [nm, v]
        c.append(["mkq", lst(ps), ctx.rng.choice("01")])
    for x in range(1, 256): c.append(["mkq", lst([bytes([x]), b"v", b"n", bytes([x])]), "01"[x % 2]])
    # requests with a query string and a form
    qch = bytes(b for b in range(33, 127) if b not in b"#") + b"\xff"
    for _ in range(3000 if big else 700):
        q = rnd(ctx, b"ab=&,%41+;/x", 0, 20)
        body = rnd(ctx, QAL, 0, 30)
        ct = ctx.rng.choice([b"application/x-www-form-urlencoded", b"application/x-www-form-urlencoded; charset=UTF-8"])
        c.append(["req", "url", T(q), T(ct), T(body), "."])
        c.append(["req", "none", T(q), T(ctx.rng.choice([b"text/plain", b"", b"application/json"])), T(body), "."])
    for nl in (1, 1023, 1024, 1025, 2000):
        for vl in (0, 1, 5, 1000, 2000):
            for z in "01": c.append(["len", "url", str(nl), str(vl), z])
    for vl in (1048575, 1048576, 1048577, 1100000): c += [["len", "url", "3", str(vl), z] for z in "01"]
    # URIs
    protos = [b"", b"http://", b"https://", b"HTTP://", b"HTTPS://", b"ftp://", b"Http://", b"://"]
    for pr in protos:
        for host in (b"", b"h", b"www.x.org", b"[::1"[:1] + b"x"):
            for port in (b"", b":", b":0", b":80", b":00080", b":65535", b":65536", b":99999999999", b":8x", b":x", b":-1", b":80:90", b": 80"):
                for path in (b"", b"/", b"/a/b", b"/?", b"/a?", b"/a?x=1", b"/a?x=1?y=2", b"/a/b:c", b"/?/"):
                    c.append(["uri", T(pr + host + port + path)])
    for _ in range(1500 if big else 400): c.append(["uri", T(ctx.rng.choice(protos[:5]) + rnd(ctx, b"ah.:1/?&=-", 1, 25))])
    decide(ctx, c)

CAL = b"ab=;, \"'$P1\t\x01\x7f\x80\xffQ"
def P08(ctx):
    big = ctx.thorough
    mc(ctx, "cookie", ["CookieBack"], [34, 36, 39, 44, 59, 61, 32, 65, 97, 255][: 10 if big else 8], 4 if big else 3)
    c = []
    for n in range(0, 6 if big else 5):
        for t in itertools.product(b"a=;\"' $"[: 7 if big else 6], repeat=n):
            for s in "01": c.append(["cookie", T(bytes(t)), s])
    for x in range(256):
        for s in (b"%cb=1; c=2", b"a=%cb; c=2", b"a=\"%c\"; c=2", b"a='%c'; c", b"a%c", b"a=%c", b"a=\"x\"%c; d=e", b"a=1,%cb=2"): c.append(["cookie", T(s.replace(b"%c", bytes([x]))), "01"[x % 2]])
    attrs = [b"Comment", b"Domain", b"Max-Age", b"Path", b"Secure", b"Version", b"Expires", b"HttpOnly"]
    for a in attrs:
        for v in (a, a.lower(), a.upper(), a[:-1], a + b"x", b"$" + a, a[:1]):
            for f in (b"n=v; %s", b"n=v; %s=1", b"n=v; %s=\"q\"; m=w", b"%s=5", b"%s; n=v", b"n=v,%s=2,m=w", b"%s"):
                for s in "01": c.append(["cookie", T(f.replace(b"%s", v)), s])
    for _ in range(8000 if big else 2500): c.append(["cookie", T(rnd(ctx, CAL, 1, 40)), ctx.rng.choice("01")])
    names = [b"a", b"A", b"session_id", b"x-y", b"path1", b"\xff", b"n.m"]
    vals = [b"", b"v", b"1,2;3", b"a=b", b"x y", b" lead", b"trail ", b"'q'", b"\x80\xff", b"0"]
    def cname(): return ctx.rng.choice(names) if ctx.rng.random() < .5 else bytes(ctx.rng.choice(b"abcXYZ019-_.!#%&*+^`|~") for _ in range(ctx.rng.randrange(1, 12)))
    def cval(): return ctx.rng.choice(vals) if ctx.rng.random() < .5 else bytes(ctx.rng.choice([x for x in range(32, 256) if x not in (34, 127)]) for _ in range(ctx.rng.randrange(0, 15)))
    for _ in range(5000 if big else 1200):
        ws = []
        for _ in range(ctx.rng.randrange(1, 6)):
            f = ctx.rng.choice("abcdefg")
            age = ctx.rng.choice([b"0", b"1", b"3600", b"4294967295", b"18446744073709551615"])
            path = ctx.rng.choice([b"/", b"/a/b", b"", b"/x y"]) 
            ws += [f, T(cname()), T(cval()), T(path), T(age)]
        c.append(["sc", "|".join(ws)])
    bare = [x for x in range(33, 256) if x not in (34, 39, 44, 59, 127)]
    for _ in range(3000 if big else 700):
        ps = []
        for _ in range(ctx.rng.randrange(0, 6)):
            ps += [cname(), bytes(ctx.rng.choice(bare) for _ in range(ctx.rng.randrange(0, 12)))]
        c.append(["ck", lst(ps)])
    # several Cookie headers in one request
    hch = [x for x in range(32, 256) if x != 127]
    for _ in range(3000 if big else 700):
        cks = []
        for _ in range(ctx.rng.randrange(0, 4)):
            s = b"; ".join(cname() + b"=" + ctx.rng.choice([cval().replace(b";", b""), b"\"" + cval() + b"\"", b"'" + cval().replace(b"'", b"") + b"'", b""]) for _ in range(ctx.rng.randrange(1, 4)))
            cks.append((b"$Version=1; " if ctx.rng.random() < .2 else b"") + s)
        c.append(["req", "none", "-", "-", "-", lst(cks)])
    for nl in (1, 1023, 1024, 1025):
        for vl in (0, 1, 5, 2000):
            for k in ("ck", "ckq", "set"):
                for z in "01": c.append(["len", k, str(nl), str(vl), z])
    for vl in (1048575, 1048576, 1048577): c += [["len", k, "3", str(vl), z] for z in "01" for k in ("ck", "ckq", "set")]
    decide(ctx, c)

def P09(ctx):
    big = ctx.thorough
    mc(ctx, "mp", ["MultiBack"], [13, 10, 45, 98, 97, 0][: 6 if big else 5], 6 if big else 5)
    R = ctx.rng
    c = []
    def data(bnd):
        k = R.random()
        if k < .25: return anyb(ctx, 0, 20)
        if k < .6: return b"".join(R.choice([b"\r\n", b"\r", b"\n", b"--", b"-", bnd[:-1], b"--" + bnd[:-1], b"\r\n--" + bnd[:-1], b"\r\n--" + bnd[1:], b"x", b":", b"\0", b"--" + bnd[::-1]]) for _ in range(R.randrange(0, 7)))
        return R.choice([b"", b"v", b"hello world", b"\r\n", b"\r\n\r\n", b"a=b&c", b"\x00\xff\x80"])
    types = [b"", b"text/plain", b"TEXT/html; charset=x", b"application/octet-stream", b"image/png", b"text", b"x", b"texts/a"]
    def name(): return R.choice([b"f", b"field1", b"a b", b"funny$field", b"\xc3\xa9", b"name", b"x=\x27", b"F"])
    def header(nm):
        k = R.random()
        if k < .5: return b"Content-Disposition: form-data; name=\"" + nm + b"\""
        if k < .6: return b"content-disposition:form-data;name=\"" + nm + b"\"; filename=\"a.bin\""
        if k < .7: return b"Content-Disposition: form-data; filename=\"z.txt\"; name=\"" + nm + b"\""
        if k < .75: return b"CONTENT-DISPOSITION:   name=\"" + nm + b"\""
        if k < .8: return b"Content-Disposition: form-data; name=\"" + nm
        if k < .85: return b"Content-Disposition: form-data; filename=\"only.txt\""
        if k < .9: return b"Content-Disposition: form-data"
        if k < .95: return b"X-Other: name=\"no\""
        return b"Content-Disposition: form-data; xname=\"w\"; name=\"" + nm + b"\""
    def part(bnd, nl):
        hs = [header(name())]
        ty = R.choice(types)
        if ty: hs.insert(R.randrange(2), b"Content-Type: " + ty)
        if R.random() < .2: hs.insert(R.randrange(len(hs) + 1), R.choice([b"X-A: b", b"X-Empty:", b"X-Blank: ", b"noheader", b"Content-Transfer-Encoding: binary", b":v"]))
        return nl + nl.join(hs) + nl + nl + data(bnd)
    def ct(bnd):
        return b"multipart/form-data; boundary=" + bnd if R.random() < .6 else R.choice([
            b"multipart/form-data; boundary=\"" + bnd + b"\"", b"multipart/form-data; boundary=" + bnd + b"; charset=utf-8", b"multipart/form-data; boundary=\"" + bnd + b"\"; a=b",
            b"multipart/form-data; charset=x; boundary=" + bnd, b"multipart/form-data; boundary=" + bnd + b" ", b"multipart/form-data", b"multipart/form-data; boundary=", b"multipart/form-data; boundary=\"\""])
    def body(bnd):
        out = R.choice([b"", b"", b"", b"preamble\r\n", b"\r\n"])
        for _ in range(R.randrange(0, 4)):
            nl = b"\r\n" if R.random() < .85 else b"\n"
            out += b"--" + bnd + part(bnd, nl) + (b"\r\n" if R.random() < .9 else b"")
        return out + R.choice([b"--" + bnd + b"--", b"--" + bnd + b"--\r\n", b"--" + bnd + b"--\r\nepilogue", b"--" + bnd, b"--" + bnd + b"-", b"--" + bnd + b"\r\n", b""])
    for n in range(9000 if big else 3000):
        bnd = R.choice([b"b", b"xx", b"----WebKitFormBoundary7", b"AaB03x", b"-", b"--", b"aa"])
        s = body(bnd); t = ct(bnd)
        if n % 3 == 2 and s:       # damage
            s = bytearray(s)
            for _ in range(R.randrange(1, 4)):
                p = R.randrange(len(s)); k = R.random()
                if k < .35: s[p] = R.choice(b"\r\n-:\" ;=bx\0\xff")
                elif k < .6: del s[p]
                elif k < .8: s.insert(p, R.choice(b"\r\n-:\" ;="))
                else: del s[p:]
                if not s: break
            s = bytes(s)
        if n % 4 == 1 and b"multipart" in t: c.append(["req", "mp", T(b"q=1"), T(t.strip()), T(s), "."])
        else: c.append(["mp", T(t), T(s)])
    # every truncation of a body with all features
    full = b"pre\r\n--b\r\nContent-Disposition: form-data; name=\"f1\"\r\n\r\nv1\r\n--b\r\nContent-Type: a/b\r\nContent-Disposition: form-data; name=\"f2\"; filename=\"x\"\r\n\r\n\0\1\2\3\r\n--b\r\nX:\r\nContent-Disposition: form-data; name=\"f3\"\r\n\r\n\r\n--b--\r\n"
    for i in range(len(full) + 1): c.append(["mp", T(b"multipart/form-data; boundary=b"), T(full[:i])])
    for i in range(len(full)):
        for x in ((b"\r", b"\n", b"-", b":", b"\"") if big or i % 2 == 0 else (b"\r", b"\n")): c.append(["mp", T(b"multipart/form-data; boundary=b"), T(full[:i] + x + full[i + 1:])])
    # all short bodies over the critical alphabet
    for n in range(0, 6 if big else 5):
        for t in itertools.product(b"-b\r\n", repeat=n): c.append(["mp", T(b"boundary=b"), T(b"--b" + bytes(t))])
    for n in range(0, 5 if big else 4):
        for t in itertools.product(b"\r\n:x-", repeat=n): c.append(["mp", T(b"boundary=b"), T(b"--b\r\nContent-Disposition: name=\"f\"" + bytes(t) + b"d\r\n--b--")])
        for t in itertools.product(b"\r\n-bd", repeat=n): c.append(["mp", T(b"boundary=b"), T(b"--b\r\nContent-Disposition: name=\"f\"\r\n\r\n" + bytes(t) + b"--b--")])
    for n in range(0, 40):
        for _ in range(4): c.append(["d64", T(anyb(ctx, n, n + 1)), T(R.choice(types))])
    for s in [b"", b"data:", b"data:x", b"data:; base64, ", b"data:; base64, =", b"data:; base64, ==", b"data:; base64, ===", b"data:a/b; base64, Q", b"data:a/b; base64, QQ", b"data:a/b; base64, QQ=", b"data:a/b; base64, Q?==", b"data:a/b; base64, =QQ", b"x; base64, QQ==", b"; base64, QQ=="]:
        c.append(["d64bad", T(s)])
    decide(ctx, c)
