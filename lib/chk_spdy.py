"""P23-P25: SPDY (spec/Spdy.tla)."""
import itertools, struct, zlib
import vf
DICT = (b"optionsgetheadpostputdeletetraceacceptaccept-charsetaccept-encodingaccept-"
b"languageauthorizationexpectfromhostif-modified-sinceif-matchif-none-matchi"
b"f-rangeif-unmodifiedsincemax-forwardsproxy-authorizationrangerefererteuser"
b"-agent10010120020120220320420520630030130230330430530630740040140240340440"
b"5406407408409410411412413414415416417500501502503504505accept-rangesageeta"
b"glocationproxy-authenticatepublicretry-afterservervarywarningwww-authentic"
b"ateallowcontent-basecontent-encodingcache-controlconnectiondatetrailertran"
b"sfer-encodingupgradeviawarningcontent-languagecontent-lengthcontent-locati"
b"oncontent-md5content-rangecontent-typeetagexpireslast-modifiedset-cookieMo"
b"ndayTuesdayWednesdayThursdayFridaySaturdaySundayJanFebMarAprMayJunJulAugSe"
b"pOctNovDecchunkedtext/htmlimage/pngimage/jpgimage/gifapplication/xmlapplic"
b"ation/xhtmltext/plainpublicmax-agecharset=iso-8859-1utf-8gzipdeflateHTTP/1"
b".1statusversionurl\x00")
SYN, REPLY, RST, SETTINGS, NOOP, PING, GOAWAY, HEADERS, WINDOW, CRED = range(1, 11)
LIMIT = 16384
def u16(n): return struct.pack(">H", n & 0xffff)
def u32(n): return struct.pack(">I", n & 0xffffffff)
def ctl(t, payload, flags=0, ver=2, length=None):
    return bytes([0x80, ver]) + u16(t) + u32(flags << 24 | (len(payload) if length is None else length)) + payload
def data(stream, payload, flags=0, length=None):
    return u32(stream) + u32(flags << 24 | (len(payload) if length is None else length)) + payload
def block(pairs, count=None): return u16(len(pairs) if count is None else count) + b"".join(u16(len(n)) + n + u16(len(v)) + v for n, v in pairs)
def syn(stream, comp, flags=0, ver=2, assoc=0, pri=0): return ctl(SYN, u32(stream) + u32(assoc) + u16(pri) + comp, flags, ver)
def reply(stream, comp, flags=0, ver=2, t=REPLY): return ctl(t, u32(stream) + u16(0) + comp, flags, ver)

class Peer:
    """one compression stream per direction"""
    def __init__(s, level=6, strategy=0, zdict=DICT, memlevel=8, flush=zlib.Z_SYNC_FLUSH):
        s.z = {d: zlib.compressobj(level, zlib.DEFLATED, 15, memlevel, strategy, zdict) for d in ("req", "resp")}; s.flush = flush
    def comp(s, d, text, end=False, cuts=()):
        z = s.z[d]; out = b""; last = 0
        for c in cuts: out += z.compress(text[last:c]) + z.flush(s.flush); last = c
        return out + z.compress(text[last:]) + z.flush(zlib.Z_FINISH if end else s.flush)
    def frame(s, t, stream, text, flags=0, ver=2, **kw):
        c = s.comp(direction(t, stream), text, **kw)
        return syn(stream, c, flags, ver) if t == SYN else reply(stream, c, flags, ver, t)

def direction(t, stream): return "resp" if stream % 2 == 0 else "req" if t == SYN else "resp"

def table(pkts):
    """what zlib makes of the header blocks that a decoder gets to see"""
    inf = {}; num = {"req": 0, "resp": 0}; tab = []; lost = set()
    for p in pkts:
        at = 0
        while len(p) - at >= 8:
            q = p[at:]; ln = struct.unpack(">I", q[4:8])[0] & 0xffffff
            if q[0] not in (0, 0x80): break
            if q[0] == 0x80:
                t = q[2] << 8 | q[3]
                if not 1 <= t <= 10 or q[1] > 3: break
                if t in (SYN, REPLY, HEADERS):
                    pre = 10 if t == SYN else 6
                    if len(q) - 8 < ln or ln < pre: break
                    d = direction(t, struct.unpack(">I", q[8:12])[0] & 0x7fffffff); c = q[8 + pre:8 + ln]
                    if d in lost: break
                    z = inf.setdefault(d, zlib.decompressobj(15, DICT)); text = None
                    try:
                        text = z.decompress(c, LIMIT + 100)
                        if z.eof or len(text) > LIMIT or not text or z.unconsumed_tail: text = None
                    except zlib.error: pass
                    tab.append({"d": d, "k": num[d], "c": list(c), "t": [-1] if text is None else [-2] if len(text) == LIMIT else list(text)})
                    num[d] += 1
                    if text is None or len(text) == LIMIT: lost.add(d); break
            at += 8 + ln
            if at >= len(p): break
    return tab

def run(ctx, cases, kind):
    b = vf.build("h_spdy", "h_spdy.cpp", ["src/spdy_parser.cpp", "src/spdy_decompressor.cpp", "src/algorithm.cpp"], ["-O1"] + vf.SAN, extra_link=["-lz"])
    text = lambda c: " ".join(p.hex() or "-" for p in c)
    out = vf.run_batch(b, [(i, "%d %s\n" % (i, text(c))) for i, c in enumerate(cases)])
    recs = []; blocks = 0; calls = 0
    for i, c in enumerate(cases):
        if "crash" in out[i]: ctx.violation("packets %s: the code crashed, threw or hung: %s" % (text(c)[:700], out[i]["crash"][-700:]), {"case": text(c)})
        else:
            r = out[i]; r["tab"] = table(c); recs.append(r); blocks += len(r["tab"]); calls += sum(len(p["calls"]) for p in r["pkts"])
    ctx.log("ran", len(recs), "histories;", calls, "calls,", blocks, "header blocks")
    rej, t = vf.validate("SpdyTrace", "SpdyTrace.cfg", recs, timeout=850)
    ctx.states += t.distinct; ctx.transitions += calls; ctx.validated += len(recs)
    ctx.extra_cov["%s_calls" % kind] = calls; ctx.extra_cov["%s_blocks" % kind] = blocks
    for i, why in sorted(rej.items()): ctx.violation("packets %s: not what the specification says: %s" % (text(cases[i])[:900], why[:600]), {"case": text(cases[i]), "recorded": out[i]})
    ctx.log(len(recs), "decided,", len(rej), "rejected")
    for c in cases[:: max(1, len(cases) // 3)]: ctx.sample(text(c)[:300])

def model(ctx):
    ctx.model("SpdyMC", 'SPECIFICATION Spec\nCONSTANTS MaxFrames = %d Design = "two"\nINVARIANT Truth Within\nPROPERTY Finishes\n' % 2, timeout=850)
    for d in ("one", "type"): ctx.defect("SpdyMC", 'SPECIFICATION Spec\nCONSTANTS MaxFrames = 2 Design = "%s"\nINVARIANT Truth Within\n' % d, timeout=300)

REQ = [(b"method", b"GET"), (b"url", b"/"), (b"version", b"HTTP/1.1"), (b"host", b"www.example.com")]
RES = [(b"status", b"200"), (b"version", b"HTTP/1.1"), (b"content-type", b"text/html")]
SHORT = [(b"a", b"b")]
def samples(peer):
    """a frame of each kind"""
    return [data(1, b""), data(1, b"x"), data(3, b"hello", 1), data(0, b"z"), data(0xffffff, b"\x80\x02\x00\x09", 3),
            ctl(RST, u32(1) + u32(5)), ctl(RST, u32(1) + u32(99)), ctl(RST, u32(1) + u32(1), 1), ctl(SETTINGS, b""), ctl(SETTINGS, u32(1) + u32(0x04000000) + u32(100)),
            ctl(NOOP, b""), ctl(PING, u32(7)), ctl(PING, u32(0)), ctl(PING, b"\1\2\3"), ctl(GOAWAY, u32(1)), ctl(GOAWAY, u32(1) + u32(0)), ctl(GOAWAY, u32(1) + u32(2)),
            ctl(GOAWAY, b""), ctl(WINDOW, u32(1) + u32(1000)), ctl(CRED, u16(1) + b"proof"), ctl(CRED, b"")]

def P23(ctx):
    big = ctx.thorough; R = ctx.rng; model(ctx); cases = []
    # every field of one frame
    for t in range(0, 20):
        for ver in (0, 1, 2, 3, 4, 5, 127, 128, 255):
            for fl in (0, 1, 2, 3, 255):
                for n in (0, 4, 8, 12):
                    for tail in (b"", data(5, b"q")): cases.append([ctl(t, bytes([0, 0, 0, 9, 0, 0, 0, 2, 1, 1, 1, 1])[:n], fl, ver) + tail])
    for t in (0x10, 0x100, 0x101, 0x200, 0x107, 0xff06, 0xffff): cases.append([ctl(t, u32(1))])
    for b0 in range(256): cases.append([bytes([b0]) + data(1, b"abc")[1:]]); cases.append([bytes([b0]) + ctl(PING, u32(3))[1:]])
    for s in [0, 1, 2, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff] + [1 << k for k in range(24)]:
        for fl in range(0, 256, 1 if big else 5): cases.append([data(s, b"ab", fl) + data(1, b"", 1)])
    # lengths: 24 bits, of data that is there or is not
    for ln in sorted(set([0, 1, 2, 255, 256, 257, 1427, 65535, 65536, 0x7fffff, 0x800000, 0xffffff] + [1 << k for k in range(24)])):
        for have in (0, 1, 5):
            if have <= ln: cases.append([data(1, b"d" * have, 1, ln)]); cases.append([ctl(SETTINGS, b"d" * have, 0, 2, ln)])
    for ln in (255, 256, 257, 1427, 65535, 65536, 65537) if big else (255, 256, 1427, 4096):
        for d in (-1, 0, 1, 7, 8, 9): cases.append([(data(1, b"d" * ln, 1) + ctl(PING, u32(1)))[:8 + ln + d]])
    # goaway and reset with every status
    for st in list(range(0, 20)) + [0x01000000, 0x0b000000, 0x00010001, 0xffffffff, 0x80000001, 257, 267]:
        for ver in (2, 3):
            for fl in (0, 1): cases.append([ctl(GOAWAY, u32(5) + u32(st), fl, ver) + data(1, b"x")]); cases.append([ctl(RST, u32(5) + u32(st), fl, ver) + data(1, b"x")])
        cases.append([ctl(GOAWAY, u32(st)) + u32(st) * 3]); cases.append([ctl(GOAWAY, u32(1)) + data(1, u32(st))])
    # sequences of frames
    sm = samples(None); n = len(sm) + 3
    def seqs(idx):
        peer = Peer(); out = []
        for i in idx:
            k = i - len(sm)
            out.append(sm[i] if k < 0 else peer.frame(SYN, 1, block(SHORT)) if k == 0 else peer.frame(REPLY, 1, block(SHORT)) if k == 1 else peer.frame(HEADERS, 2, block(RES)))
        return out
    for k in (1, 2, 3):
        for idx in itertools.product(range(n), repeat=k):
            if k == 3 and R.random() > (1 if big else .12): continue
            cases.append([b"".join(seqs(idx))])
    for i in range(6000 if big else 800):
        fr = seqs([R.randrange(n) for _ in range(R.randrange(2, 12))])
        if R.random() < .3: fr[R.randrange(len(fr))] = data(R.randrange(1 << 24), R.randbytes(R.randrange(0, 60)), R.randrange(256))
        if R.random() < .5: cases.append([b"".join(fr)])
        else:
            k = R.randrange(len(fr)); cases.append([b"".join(fr[:k]), b"".join(fr[k:])])
    run(ctx, cases, "frames")

def rpairs(R, uniq=True):
    names = [b"method", b"url", b"version", b"host", b"status", b"content-type", b"accept-encoding", b"user-agent", b"", b"x", b"X", b"a\x00", b"n" * 200, b"set-cookie", b"\xff\x80"]
    vals = [b"GET", b"/", b"HTTP/1.1", b"www.cnn.com", b"200", b"text/html", b"", b"\x00", b"a\x00b", b"v" * 300, bytes(range(256)), b"gzip,deflate,sdch", b"0", b"\x80\x02\x00\x01"]
    out = []
    for _ in range(R.choice([0, 1, 1, 2, 3, 5, 8])):
        n = R.choice(names) if R.random() < .8 else R.randbytes(R.randrange(0, 12))
        if uniq and n in [x for x, _ in out]: continue
        out.append((n, R.choice(vals) if R.random() < .7 else R.randbytes(R.randrange(0, 40))))
    return out

def P24(ctx):
    big = ctx.thorough; R = ctx.rng; model(ctx); cases = []
    kinds = [(SYN, 1), (REPLY, 1), (HEADERS, 1), (SYN, 2), (REPLY, 2), (HEADERS, 4), (SYN, 3), (SYN, 0x7fffffff), (REPLY, 0x7ffffffe)]
    # every order of the kinds of block; frames in one packet or one packet each
    for k in (1, 2, 3, 4):
        for ks in itertools.product(kinds[:6], repeat=k):
            if k == 4 and not big and R.random() > .15: continue
            for together in (True, False):
                if k == 3 and together and not big and R.random() > .4: continue
                p = Peer(); fr = [p.frame(t, s, block(REQ if direction(t, s) == "req" else RES) if i % 2 else block(SHORT + [(b"i", b"%d" % i)])) for i, (t, s) in enumerate(ks)]
                cases.append([b"".join(fr)] if together else fr)
    for t, s in kinds:
        for fl in (0, 1, 2, 255):
            for ver in (1, 2, 3): p = Peer(); cases.append([p.frame(t, s, block(REQ), fl, ver) + p.frame(t, s, block(RES), fl, ver)])
    # ways to compress the same thing
    for level in range(0, 10):
        for strat in (0, 1, 2, 3, 4):
            for mem in (1, 8, 9):
                for fl in (zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH):
                    if not big and (level * 7 + strat * 3 + mem + fl) % 4: continue
                    p = Peer(level, strat, DICT, mem, fl); b1, b2 = block(REQ + [(b"n" * 90, b"v" * 400)]), block(RES)
                    cases.append([p.frame(SYN, 1, b1) + p.frame(REPLY, 1, b2), p.frame(SYN, 3, b1, cuts=(3, 50)) + p.frame(HEADERS, 1, b1), p.frame(REPLY, 3, b2)])
    # contents: every byte in a name and in a value, lengths over 255, many pairs, trailing bytes
    for b in range(256): p = Peer(); x = bytes([b]); cases.append([p.frame(SYN, 1, block([(x, x + x), (b"k" + x, x)])) + p.frame(REPLY, 1, block([(b"z", x)]))])
    for n in (0, 1, 2, 254, 255, 256, 257, 511, 512, 1000, 4095, 4096, 8000):
        p = Peer(); cases.append([p.frame(SYN, 1, block([(b"n" * n, b"v")])), p.frame(SYN, 3, block([(b"n", b"v" * n)])), p.frame(REPLY, 1, block([(b"n" * n, b"v" * n)])) if n < 8000 else b""])
    for n in (1, 2, 100, 255, 256, 257, 300, 1000): p = Peer(); cases.append([p.frame(SYN, 1, block([(b"%d" % i, b"") for i in range(n)])), p.frame(SYN, 3, block(SHORT))])
    for extra in (b"\0", b"\0\1a\0\1b", b"x" * 50): p = Peer(); cases.append([p.frame(SYN, 1, block(SHORT) + extra), p.frame(SYN, 3, block(RES)), p.frame(REPLY, 1, block(RES) + extra + b"!")])
    # around the size of the buffer; the next block must not be affected by what came before
    for n in list(range(LIMIT - 40, LIMIT + 12, 1 if big else 4)) + [LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 300, 20000, 40000, 100000]:
        for fill in (b"v", b""):
            for level in (0, 6):
                p = Peer(level); body = n - len(block([(b"n", b"")])) - 1 - len(block([(b"n", b"")])) + 2
                v = lambda k: b"v" * k if fill else R.randbytes(k)
                if body > 60000: bl = block([(b"n", v(60000)), (b"m", v(n - 60000 - 12))])
                else: bl = block([(b"n", v(n - 7))])
                cases.append([p.frame(SYN, 1, bl), p.frame(SYN, 3, block(SHORT)), p.frame(REPLY, 1, block(RES)), p.frame(SYN, 5, block(REQ))])
    # a block over the size of the buffer of which nothing is left to read when the buffer is full
    for n in range(LIMIT - 2, LIMIT + 262, 1 if big else 5):
        for drop in (4, 5, 6):
            p = Peer(9); a = p.frame(SYN, 1, block([(b"n", b"v" * (9000 if n % 2 else n - 7))]).ljust(n, b"v")); a = syn(1, a[18:-drop]); cases.append([a, p.frame(SYN, 3, block(SHORT))])
    # blocks that cannot be inflated, then one that can, in the other direction too
    def bad(c, t=SYN):
        p = Peer(); pre = [] if R.random() < .5 else [p.frame(REPLY, 1, block(RES))]
        cases.append(pre + [(syn(1, c) if t == SYN else reply(1, c)), p.frame(REPLY if t == SYN else SYN, 1, block(RES)), p.frame(t, 3, block(SHORT))])
    for c in (b"", b"\0", b"x", b"\x78", b"\x78\xbb", b"\x38\xea\xdf\xa2\x51", b"\x38\xea\xdf\xa2\x51\xb2", b"\x78\x9c" + b"\0" * 8, zlib.compress(block(SHORT)), Peer(zdict=b"other").comp("req", block(SHORT)), Peer(zdict=DICT[:-1]).comp("req", block(SHORT)), Peer().comp("req", block(SHORT), end=True), b"\xff" * 30, block(SHORT)):
        bad(c); bad(c, REPLY)
    good = Peer().comp("req", block(REQ))
    for i in range(len(good)):
        bad(good[:i], R.choice([SYN, REPLY]))
        for x in (1, 0x80, 0xff) if big else (R.choice([1, 2, 4, 8, 16, 32, 64, 128, 255]),): bad(good[:i] + bytes([good[i] ^ x]) + good[i + 1:], R.choice([SYN, REPLY]))
    # long random histories
    for i in range(8000 if big else 1000):
        p = Peer(R.randrange(10), R.randrange(3)); pkts = []; cur = b""
        for _ in range(R.randrange(2, 14)):
            t, s = R.choice(kinds)
            cur += p.frame(t, s, block(rpairs(R, R.random() < .9)), R.randrange(4)) if R.random() < .85 else R.choice(samples(p)[:15])
            if R.random() < .4: pkts.append(cur); cur = b""
        cases.append([x for x in pkts + [cur] if x])
    run(ctx, cases, "blocks")

def P25(ctx):
    big = ctx.thorough; R = ctx.rng; model(ctx); cases = [[b""]]
    # every truncation of every kind of packet
    def kinds():
        p = Peer()
        return samples(p) + [p.frame(SYN, 1, block(REQ)), p.frame(REPLY, 1, block(RES)), p.frame(HEADERS, 1, block(SHORT)), p.frame(SYN, 2, block(RES)),
            p.frame(SYN, 3, block(SHORT)) + data(3, b"abc") , ctl(GOAWAY, u32(1) + u32(1)), ctl(GOAWAY, u32(1) + u32(11)), data(3, b"abc") + ctl(PING, u32(1)) + ctl(RST, u32(1) + u32(1))]
    n = len(kinds())
    for k in range(n):
        f = kinds()[k]
        # (a header frame out of a stream of several is only used when it is the first of its direction)
        for i in range(len(f)):
            cases.append([f[:i]])
            if big or i < 20 or i % 3 == 0: cases.append([data(1, b"") + f[:i]]); cases.append([f[:i], f[i:]]); cases.append([f + f[:i]])
    # header frames: every declared length around the true one, and too short ones
    for t in (SYN, REPLY, HEADERS):
        for ln in list(range(0, 40)) + [0xffffff, 65535, 65536, 0x800000]:
            for tail in (b"", data(1, b"zz" * 10)):
                c = Peer().comp(direction(t, 1), block(SHORT)); f = ctl(t, u32(1) + (u32(0) if t == SYN else b"") + u16(0) + c, 0, 2, ln); cases.append([f + tail])
        for ln in range(0, 40):
            c = Peer().comp(direction(t, 1), block(SHORT)); cases.append([ctl(t, (u32(1) + (u32(0) if t == SYN else b"") + u16(0) + c)[:ln])])
    # counts and lengths inside the block that do not fit, after a block that left other text in the buffer
    def inner(text):
        for t in (SYN, REPLY):
            p = Peer(); d = direction(t, 1); cases.append([p.frame(t, 1, text)]); p = Peer()
            cases.append([p.frame(t, 1, block([(b"secret%d" % i, b"left" * 20) for i in range(30)])), p.frame(t, 3, text), p.frame(t, 5, block(SHORT))])
    base = block([(b"ab", b"cde"), (b"f", b"")])
    for i in range(len(base)): inner(base[:i])
    for i in (0, 1, 2, 3, 6, 7, 11, 12, 14, 15):
        for v in (0, 1, 2, 3, 5, 9, 10, 20, 0x40, 0x7f, 0x80, 0xff): inner(base[:i] + bytes([v]) + base[i + 1:])
    for c in (0, 1, 2, 3, 255, 256, 0x7fff, 0x8000, 0xffff): inner(u16(c)); inner(u16(c) + base[2:]); inner(u16(1) + u16(c)); inner(u16(1) + u16(1) + b"a" + u16(c)); inner(u16(1) + u16(1) + b"a" + u16(c) + b"x" * 20)
    inner(b"x"); inner(u16(1) + b"\0" * 3)
    for n in (16000, 16383):
        for last in (1, 100, 400, 0xffff): inner(u16(2) + u16(1) + b"a" + u16(n - 20) + b"v" * (n - 20) + u16(last) + b"q")
        p = Peer(); cases.append([p.frame(SYN, 1, (u16(0xffff) + b"\0\0\0\0" * 300)[:n // 16])])
    # every byte of a packet changed
    def whole():
        p = Peer(); return p.frame(SYN, 1, block(REQ)) + data(1, b"body", 1) + p.frame(REPLY, 1, block(RES)) + ctl(RST, u32(1) + u32(3)) + ctl(GOAWAY, u32(1) + u32(0)) + ctl(PING, u32(9))
    w = whole()
    for i in range(len(w)):
        vals = range(256) if big else {w[i] ^ 1, w[i] ^ 128, 0, 255, R.randrange(256)}
        for v in vals:
            if v != w[i]: cases.append([w[:i] + bytes([v]) + w[i + 1:], ctl(PING, u32(1))])
    for i in range(len(w)):
        if big or i % 2 == 0: cases.append([w[:i] + w[i + 1:]]); cases.append([w[:i] + b"\0" + w[i:]])
    # noise
    for i in range(15000 if big else 1500):
        k = R.randrange(0, 40); h = R.choice([b"\x80\x02\x00" + bytes([R.randrange(12)]), b"\0\0\0\1", R.randbytes(4)])
        cases.append([h + R.choice([u32(R.randrange(30)), R.randbytes(4)]) + R.randbytes(k)])
    for i in range(10000 if big else 1000):
        b = bytearray(whole())
        for _ in range(R.randrange(1, 5)):
            j = R.randrange(len(b))
            if R.random() < .7: b[j] = R.randrange(256)
            else: del b[j:j + R.randrange(1, 6)]
        if R.random() < .4: b = b[:R.randrange(len(b))]
        cases.append([bytes(b), whole()])
    run(ctx, cases, "malformed")
