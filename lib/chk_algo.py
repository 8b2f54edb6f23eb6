"""P12 - P15: byte string and number conversions (spec/Codec.tla)."""
import itertools, struct, sys
import vf

def binary():
    fl = ["-O1"] + vf.SAN
    try:  # the old string layout allocates every string exactly, so that any read outside it is seen
        return vf.build("h_algo", "h_algo.cpp", ["src/algorithm.cpp"], fl + ["-D_GLIBCXX_USE_CXX11_ABI=0"], _all=True)
    except vf.BuildFailure:
        return vf.build("h_algo2", "h_algo.cpp", ["src/algorithm.cpp"], fl)

def decide(ctx, cases):
    """cases: (op, bytes, extra words)"""
    b = binary()
    texts = [(i, "%d %s %s %s\n" % (i, op, vf.runs_text(s), x)) for i, (op, s, x) in enumerate(cases)]
    out = vf.run_batch(b, texts)
    recs = []
    for i, (op, s, x) in enumerate(cases):
        o = out[i]
        if "crash" in o:
            ctx.violation("%s of %r %s: the code crashed or hung: %s" % (op, s[:200], x, o["crash"][-800:]), {"op": op, "in": list(s), "extra": x})
        else: recs.append(o)
    rej, t = vf.validate("CodecTrace", "CodecTrace.cfg", recs)
    ctx.states += t.distinct; ctx.transitions += t.states; ctx.validated += len(recs)
    for i, why in sorted(rej.items()):
        op, s, x = cases[i]
        ctx.violation("%s of %r %s gave ok=%s %r: %s" % (op, s[:200], x, out[i]["ok"], bytes(out[i]["out"])[:200], why), out[i])
    ctx.log(len(recs), "calls decided,", len(rej), "rejected")
    for c in cases[:: max(1, len(cases) // 5)]: ctx.sample("%s %r %s" % c)

def lemmas(ctx, alphabet, n, invs):
    ctx.model("CodecMC", "SPECIFICATION Spec\nCONSTANTS Alphabet = {%s}\n MaxLen = %d\n" % (",".join(map(str, sorted(alphabet))), n)
              + "".join("INVARIANT %s\n" % i for i in invs), timeout=800)

def rnd(ctx, n): return bytes(ctx.rng.randrange(256) for _ in range(n))

B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
def P12(ctx):
    big = ctx.thorough
    lemmas(ctx, [0, 1, 63, 64, 65, 127, 128, 255, 61, 43, 47, 122][: 12 if big else 9] + [61], 5 if big else 4, ["B64RoundTrip", "B64Unique", "B64Refuses"])
    import base64
    c = []
    c.append(("b64enc", b"", "")); c.append(("b64dec", b"", ""))
    enc = [bytes([x]) for x in range(256)]
    # every value of every byte position and every sextet position, against all-0, all-1 and random neighbours
    for pos in range(3):
        for v in range(256):
            for fill in (0, 255):
                s = bytearray([fill] * 3); s[pos] = v; enc.append(bytes(s))
                enc.append(rnd(ctx, 3) + bytes(s[:pos + 1]))
    for n in list(range(0, 70)) + [255, 256, 257, 300]: enc += [rnd(ctx, n), bytes(n), b"\xff" * n]
    for _ in range(4000 if big else 600): enc.append(rnd(ctx, ctx.rng.randrange(0, 48)))
    for s in enc: c.append(("b64enc", s, "")); c.append(("b64dec", base64.b64encode(s), ""))
    # malformed: every byte at every position of a group, first / middle / last group
    for pos in range(12):
        for v in range(256):
            t = bytearray(ctx.rng.choice(B64) for _ in range(12)); t[pos] = v; c.append(("b64dec", bytes(t), ""))
    for tail in (b"QQ==", b"QUI="):
        for pos in range(8):
            for v in range(256):
                t = bytearray(b"QUJD" + tail); t[pos] = v; c.append(("b64dec", bytes(t), ""))
    # every length and every placement of up to three pads; short strings over the critical alphabet
    for n in range(1, 8 if big else 7):
        for t in itertools.product(b"QA=", repeat=n): c.append(("b64dec", bytes(t), ""))
    for n in range(1, 5):
        for t in itertools.product(b"z/=\x80\x00-", repeat=n): c.append(("b64dec", bytes(t), ""))
    for n in range(0, 40):
        t = bytes(ctx.rng.choice(B64) for _ in range(n)); c.append(("b64dec", t, ""))
        for p in range(n): c.append(("b64dec", t[:p] + b"=" + t[p + 1:], ""))
    for _ in range(3000 if big else 400): c.append(("b64dec", rnd(ctx, ctx.rng.randrange(1, 20)), ""))
    decide(ctx, c)

def P13(ctx):
    big = ctx.thorough
    lemmas(ctx, [0, 32, 37, 43, 48, 49, 65, 70, 71, 102, 103, 126, 128, 255][: 14 if big else 9], 5 if big else 4, ["UrlSafe", "UrlRoundTrip", "UrlShrinks"])
    c = [("urlenc", b"", ""), ("urldec", b"", "")]
    for x in range(256):
        for s in (bytes([x]), bytes([x]) * 2, b"a" + bytes([x]) + b"%"): c += [("urlenc", s, ""), ("urldec", s, "")]
        # all 65536 candidate escapes %xy, several per string, and each one at the end of the string
        for y0 in range(0, 256, 32):
            c.append(("urldec", b"".join(b"%" + bytes([x, y]) + b"." for y in range(y0, y0 + 32)), ""))
    for x in b"0123456789abcdefABCDEFgGxX+- %\x00\xff/:@`G":
        for y in b"0123456789abcdefABCDEFgGxX+- %\x00\xff/:@`G":
            c.append(("urldec", bytes([37, x, y]), "")); c.append(("urldec", b"%" + bytes([37, x, y]), ""))
    for n in range(1, 7 if big else 6):
        for t in itertools.product(b"%2f+", repeat=n): c.append(("urldec", bytes(t), ""))
    import urllib.parse
    for n in list(range(0, 60)) + [200, 300]:
        s = rnd(ctx, n); c.append(("urlenc", s, "")); c.append(("urldec", s, ""))
        c.append(("urldec", "".join("%%%02x" % b if b % 3 else "%%%02X" % b for b in s).encode(), ""))
    al = b"%+0123456789abcdefABCDEFgz &=?\x00\x80\xff"
    for _ in range(8000 if big else 1500):
        c.append(("urldec", bytes(ctx.rng.choice(al) for _ in range(ctx.rng.randrange(1, 30))), ""))
        c.append(("urlenc", rnd(ctx, ctx.rng.randrange(1, 30)), ""))
    # what the encoder is specified to write decodes back (the composed property, on the code's own output)
    decide(ctx, c)

CRIT = [0, 8, 9, 0xA, 0xB, 0xD, 0xE, 0x1F, 0x20, 0x26, 0x3C, 0x3E, 0x22, 0x27, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBD, 0xBE, 0xBF,
        0xC0, 0xC1, 0xC2, 0xC3, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFE, 0xFF]
def P14(ctx):
    big = ctx.thorough
    lemmas(ctx, [38, 65, 0, 0x80, 0x9F, 0xA0, 0xBF, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4] + ([0x8F, 0x90, 0xBE, 60] if big else []), 4,
           ["XmlWellFormed", "XmlPreserves", "XmlResync"])
    c = [("xmlenc", b"", "")]
    def pack(strings, sep, per=24):
        strings = list(strings)
        for i in range(0, len(strings), per): c.append(("xmlenc", sep.join(strings[i:i + per]) + sep, ""))
    for x in range(256):
        c.append(("xmlenc", bytes([x]), ""))
        pack((bytes([x, y]) for y in range(256)), b"A", 32)                   # every pair
    for x in CRIT:
        for y in CRIT: c.append(("xmlenc", bytes([x, y]), ""))                # truncated at the end of the string
    hi = [b for b in CRIT if b >= 0x80]
    second = [0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBE, 0xBF, 0xC0, 0xE1]
    third = [0x26, 0x7F, 0x80, 0xBD, 0xBE, 0xBF, 0xC0]
    for x in range(0xDF, 0xF9):
        pack((bytes([x, y, z]) for y in second for z in third + ([0x81, 0xA0] if big else [])), b"", 28)
        for y in second:
            for z in third: c.append(("xmlenc", bytes([x, y, z]), ""))
    for x in range(0xEF, 0xF9):
        pack((bytes([x, y, z, u]) for y in second for z in third for u in third), b"<", 28)
        for y in second[2:9]:
            for z in (0x80, 0xBF, 0xC0):
                for u in (0x80, 0xBF, 0x7F): c.append(("xmlenc", bytes([x, y, z, u]), ""))
    # every code point boundary, valid UTF-8 text of random code points, and the same with damage
    for cp in [0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFFFC, 0xFFFD, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF]:
        c.append(("xmlenc", chr(cp).encode(), "")); c.append(("xmlenc", ("a" + chr(cp) + "<").encode() * 3, ""))
    for cp in (0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFE, 0xFFFF):
        c.append(("xmlenc", chr(cp).encode("utf-8", "surrogatepass"), "")); c.append(("xmlenc", b"x" + chr(cp).encode("utf-8", "surrogatepass") + b"&", ""))
    def text(n):
        o = ""
        for _ in range(n):
            r = ctx.rng.random()
            cp = ctx.rng.choice(b"&<>\"' ab\n\t\r") if r < .4 else ctx.rng.randrange(0x80, 0x800) if r < .6 else ctx.rng.randrange(0x800, 0xFFFE) if r < .8 else ctx.rng.randrange(0x10000, 0x110000)
            if 0xD800 <= cp < 0xE000: cp -= 0x1000
            o += chr(cp)
        return o.encode()
    for _ in range(6000 if big else 1200):
        s = bytearray(text(ctx.rng.randrange(1, 20))); c.append(("xmlenc", bytes(s), ""))
        for _ in range(ctx.rng.randrange(1, 4)):
            p = ctx.rng.randrange(len(s))
            r = ctx.rng.random()
            if r < .4: s[p] = ctx.rng.choice(CRIT)
            elif r < .7: del s[p]
            else: s.insert(p, ctx.rng.choice(CRIT))
            if not s: break
        c.append(("xmlenc", bytes(s), ""))
        c.append(("xmlenc", rnd(ctx, ctx.rng.randrange(1, 24)), ""))
    decide(ctx, c)

def P15(ctx):
    big = ctx.thorough
    # the integer and image relations have no interesting state; the lemma run covers the shared operators
    lemmas(ctx, [0, 127, 128, 255], 3, ["B64RoundTrip"])
    c = []
    pats = set()
    for k in (1, 2, 3, 4, 8):
        vals = set()
        for v in (0, 1, 0x7F, 0x80, 0xFF): vals.update(bytes([v] * k) for _ in (0,))
        for i in range(k):                                   # each byte alone, all its bits
            for v in [0] + [1 << j for j in range(8)] + [0x7F, 0xFE, 0xFF, 0x81]:
                for fill in (0, 0xFF, 0x55):
                    s = bytearray([fill] * k); s[i] = v; vals.add(bytes(s))
        vals.add(bytes(range(1, k + 1))); vals.add(bytes(range(0xF8, 0xF8 + k)))
        if k == 1: vals.update(bytes([v]) for v in range(256))
        if k == 2: vals.update(bytes([ctx.rng.randrange(256), v]) for v in range(256)); vals.update(bytes([v, ctx.rng.randrange(256)]) for v in range(256))
        for _ in range(1200 if big else 150): vals.add(rnd(ctx, k))
        for s in sorted(vals):
            for sg in (0, 1):
                ext = bytes([255 if sg and s[0] >= 128 else 0] * (8 - k)) + s
                for var in (0, 1): c.append(("from", ext, "%d %d %d" % (k, sg, var)))
                for var in (0, 1, 2, 3): c.append(("to", s, "%d %d %d" % (k, sg, var)))
    for k, eb, fb in ((4, 8, 23), (8, 11, 52)):
        vals = set()
        emax = (1 << eb) - 1
        exps = list(range(emax + 1)) if eb == 8 or big else sorted(set([0, 1, 2, 3, emax, emax - 1, emax - 2, 1022, 1023, 1024, 1025] + [1 << i for i in range(11)] + [ctx.rng.randrange(emax) for _ in range(150)]))
        fr = [0, 1, 1 << (fb - 1), (1 << fb) - 1, 3 << (fb - 2), (1 << (fb - 1)) - 1]
        for sgn in (0, 1):
            for e in exps:
                for f in fr + [ctx.rng.randrange(1 << fb)]: vals.add((sgn << (eb + fb)) | (e << fb) | f)
            for j in range(fb):
                for e in (0, 1, emax - 1, (1 << (eb - 1)) - 1): vals.add((sgn << (eb + fb)) | (e << fb) | (1 << j)); vals.add((sgn << (eb + fb)) | (e << fb) | ((1 << j) - 1))
        for _ in range(3000 if big else 300): vals.add(ctx.rng.randrange(1 << (8 * k)))
        for v in sorted(vals):
            s = v.to_bytes(k, "big")
            c.append(("fromflt", s, "0 0 %d" % (v & 1))); c.append(("toflt", s, "0 0 %d" % ((v >> 1) & 1)))
    lds = set()
    for sgn in (0, 1):
        for e in [0, 1, 2, 16382, 16383, 16384, 32765, 32766, 32767] + [ctx.rng.randrange(1, 32767) for _ in range(150 if big else 25)]:
            for f in [0, 1, 1 << 62, (1 << 63) - 1, ctx.rng.randrange(1 << 63)]:
                lds.add(((sgn << 15) | e).to_bytes(2, "big") + (f | (0 if e == 0 else 1 << 63)).to_bytes(8, "big"))
    for x in sorted(lds):
        c.append(("fromld", x, ""))
        m = int.from_bytes(x[2:], "big") & ((1 << 63) - 1)
        c.append(("told", x[:2] + (m << 49).to_bytes(14, "big"), ""))
    decide(ctx, c)
