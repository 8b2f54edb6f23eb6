"""P10, P11: message objects and what they look like on the wire (spec/Message.tla, WriteTrace.tla)."""
import itertools
import vf
T = vf.runs_text
SRC = ["src/http_parser.cpp", "src/http_message.cpp", "src/http_types.cpp", "src/http_writer.cpp", "src/algorithm.cpp", "src/tcp_timer.cpp", "src/logger.cpp"]
def binary(): return vf.build("h_msg", "h_msg.cpp", SRC, ["-O1"] + vf.SAN)

def st(op, s=1, a=b"", b=b"", n=0, obs=1): return "%s;%d;%s;%s;%d;%d" % (op, s, T(a), T(b), n, obs)

def decide(ctx, module, cases, env=None, known={}, knownwhy=""):
    b = binary(); ctx.log("built")
    out = vf.run_batch(b, [(i, "%d %s\n" % (i, " ".join(c))) for i, c in enumerate(cases)])
    recs = []
    for i, c in enumerate(cases):
        if "crash" in out[i]: ctx.violation("%s: the code crashed, threw or hung: %s" % (" ".join(c)[:600], out[i]["crash"][-700:]), {"case": c})
        else: recs.append(out[i])
    ctx.log("ran", len(recs))
    rej, t = vf.validate(module, module + ".cfg", recs, env=env, timeout=800)
    ctx.states += t.distinct; ctx.transitions += t.states; ctx.validated += len(recs)
    for i in known:
        if rej.get(i, "") == knownwhy: ctx.known.append(known[i]); del rej[i]
    for i, why in sorted(rej.items()): ctx.violation("%s: not what the specification says: %s" % (" ".join(cases[i])[:900], why), {"case": cases[i], "recorded": out[i]})
    ctx.log(len(recs), "decided,", len(rej), "rejected")
    for c in cases[:: max(1, len(cases) // 5)]: ctx.sample(" ".join(c))
    return out, rej

def P11(ctx):
    big = ctx.thorough; R = ctx.rng
    ctx.model("MessageMC", "SPECIFICATION Spec\nCONSTANTS NameBytes = {97, 65%s}\n MaxSize = %d\nINVARIANT Reads LengthInv\nPROPERTY Independent Laws\n" % (", 98" if big else "", 2 if big else 1), timeout=850)
    cases = []
    def hist(isreq, slots, probes, steps): cases.append(["hist", "1" if isreq else "0", str(slots), "|".join(T(x) for x in probes) or ".", *steps])
    # every short history of one dictionary over names differing in case
    for kind, isreq in (("h", 1), ("h", 0), ("c", 0), ("c", 1), ("q", 1)):
        al = [("a" + kind, b"a", b"1"), ("a" + kind, b"A", b"2"), ("c" + kind, b"a", b"3"), ("c" + kind, b"A", b"1"), ("d" + kind, b"a", b""), ("d" + kind, b"B", b""), ("a" + kind, b"b", b"1")]
        for n in range(1, 6 if big else 5):
            for seq in itertools.product(al, repeat=n):
                if n >= 4 and (not big) and R.random() > .5: continue
                if n == 5 and R.random() > .35: continue
                hist(isreq, 1, [b"a", b"A", b"b", b"c"], [st(o, 1, a, b, 0, 1 if i == n - 1 or R.random() < .3 else 0) for i, (o, a, b) in enumerate(seq)])
    # copies and assignments
    al = [lambda s: st("ah", s, b"X", b"1"), lambda s: st("ch", s, b"x", b"2"), lambda s: st("sb", s, b"body%d" % s), lambda s: st("cb", s), lambda s: st("clear", s), lambda s: st("ac", s, b"k", b"v"), lambda s: st("vn", s, n=0)]
    for isreq in (0, 1):
        for x, y in itertools.product(al, al):
            for cp in ("copy", "assign"):
                for d, sr in ((1, 2), (2, 1), (1, 1)):
                    if d == sr and cp == "copy": continue
                    hist(isreq, 2, [b"x", b"K"], [x(1), y(2), st(cp, d, n=sr), x(2), y(1), st("assign", d, n=d)])
    # random long histories
    alph = b"aAbBcC-_Zz"
    def nm():
        k = R.random()
        if k < .5: return R.choice([b"a", b"A", b"ab", b"aB", b"AB", b"Ab", b"x-y", b"X-Y", b"[", b"{", b"@", b"`", b"\xc0", b"\xe0", b"a1"])
        if k < .7: return R.choice([b"Connection", b"connection", b"Content-Length", b"CONTENT-LENGTH", b"Transfer-Encoding", b"transfer-encoding", b"Content-Type", b"content-type"])
        return bytes(R.choice(alph) for _ in range(R.randrange(1, 6)))
    def val(): return R.choice([b"", b"1", b"2", b"close", b"Close", b"CLOSE", b"keep-alive", b"closed", b"chunked", b"gzip, CHUNKED", b"identity", b" 5 ", b"00012", b"18446744073709551615", b"18446744073709551616", b"-1", b"+3", b"x", b"1 2", b"text/plain", b"\x00\xff", b"a=b"])
    def rstep(isreq, slots):
        s = R.randrange(1, slots + 1); k = R.random(); obs = 1 if R.random() < .5 else 0
        f = lambda op, a=b"", b=b"", n=0: st(op, s, a, b, n, obs)
        if k < .25: return f(R.choice(["ah", "ch", "ah", "dh"]), nm(), val())
        if k < .33: return f(R.choice(["ac", "cc", "dc"]), nm(), val())
        if k < .41 and isreq: return f(R.choice(["aq", "cq", "dq"]), R.choice([b"a", b"A", b"x y", b"&", b"Q"]), R.choice([b"", b"1", b"a,b&c", b"\xff%"]))
        if k < .48: return f(R.choice(["ucl", "ute", "ucl"]))
        if k < .53: return f("ch", R.choice([b"content-length", b"Content-Length"]), val())
        if k < .58: return f("ch", b"Connection", val())
        if k < .66: return f(R.choice(["sb", "sp", "sb"]), R.choice([b"", b"x", b"\x00abc", b"hello world", b"q" * 300]))
        if k < .70: return f(R.choice(["cb", "ct", "cl"]), R.choice([b"text/html", b""]), n=R.randrange(0, 400))
        if k < .76: return f(R.choice(["vj", "vn"]), n=R.choice([0, 1, 1, 2, 10, 65535]))
        if k < .84:
            if isreq: return f(R.choice(["sm", "sr", "cr", "sq", "uqs", "uqp"]), R.choice([b"GET", b"HEAD", b"/", b"/a/b", b"", b"x=1"]))
            return R.choice([f("sc", n=R.choice([0, 100, 199, 200, 204, 205, 206, 304, 404, 500])), f("ss", R.choice([b"OK", b"", b"Not Found"])), f("ri", R.choice([b"GET", b"HEAD", b"POST"]), n=R.choice([0, 9, 10, 11, 12, 20])), f("setc", nm(), b"v"), f("delc", nm())])
        if k < .88: return f(R.choice(["sup", "val"]), n=R.randrange(2))
        if k < .90: return f("clear")
        return f(R.choice(["copy", "assign"]), n=R.randrange(1, slots + 1))
    for i in range(6000 if big else 1500):
        isreq = i % 2; slots = R.choice([1, 2, 3])
        hist(isreq, slots, [b"a", b"AB", b"aB", b"connection", b"X-y", b"{", b"\xe0"], [rstep(isreq, slots) for _ in range(R.randrange(2, 30))] + [st("val", 1, n=1)])
    # names: every pair of bytes as names; only letters fold
    for x in range(1, 256):
        for y in {x ^ 32, x}:
            if y == 0: continue
            hist(0, 1, [bytes([x]), bytes([y]), b"n" + bytes([y])], [st("ah", 1, bytes([x]), b"1"), st("ah", 1, b"N" + bytes([x]), b"3"), st("ch", 1, bytes([y]), b"2"), st("dh", 1, bytes([x]))])
    decide(ctx, "MessageTrace", cases)

TOK = b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.!#$%&'*+^`|~"
def P10(ctx):
    big = ctx.thorough; R = ctx.rng
    lim = "".join(" %s = %d\n" % (k, v) for k, v in (("STATUS_MESSAGE_MAX", 1024), ("METHOD_MAX", 1024), ("RESOURCE_MAX", 262144), ("QUERY_STRING_MAX", 1048576), ("HEADER_NAME_MAX", 1024), ("HEADER_VALUE_MAX", 1048576)))
    ctx.model("WriterMC", "SPECIFICATION Spec\nCONSTANTS\n%s MaxWrites = %d\n MaxSends = %d\nINVARIANT ReadBack\n" % (lim, 3 if big else 2, 3 if big else 2), timeout=850)
    cases = []
    hv = [b for b in range(32, 256) if b != 127] + [9]
    uri = [b for b in range(33, 256) if b not in (63, 127)]
    def rnd(al, lo, hi): return bytes(R.choice(al) for _ in range(R.randrange(lo, hi)))
    def ops(isreq, body):
        o = []
        if isreq:
            o.append(st("sm", a=R.choice([b"GET", b"POST", b"HEAD", b"PUT", b"x!y", rnd(TOK, 1, 12)])))
            o.append(st("sr", a=b"/" + rnd(uri, 0, 12)))
            if R.random() < .3: o.append(st("cr", a=b"/" + rnd(uri, 0, 9)))
            if R.random() < .4: o.append(st("sq", a=rnd(uri + [63], 0, 12)))
            if R.random() < .2: o += [st("aq", a=b"a b", b=b"1&2"), st("aq", a=b"x", b=b"\xff"), st("uqp" if body and R.random() < .5 else "uqs")]
        else:
            if R.random() < .5: o.append(st("ri", a=b"HEAD" if body == 2 and R.random() < .25 else b"GET", n=R.choice([10, 11, 11, 12, 20])))
            if R.random() < .6: o.append(st("sc", n=R.choice([200, 201, 206, 301, 400, 404, 500, 599, 999] + ([] if body == 1 else [100, 101, 199, 204, 205, 304]))))
            if R.random() < .6: o.append(st("ss", a=R.choice([b"", b"Fine", b"Not Found", rnd([b for b in hv if b != 9], 0, 12)])))
            if R.random() < .2: o.append(st("sup", n=R.randrange(2)))
            for _ in range(R.randrange(0, 3) if R.random() < .3 else 0): o.append(st(R.choice(["setc", "delc"]), a=rnd(TOK, 1, 6), b=rnd([b for b in hv if b not in (34, 9)], 0, 8)))
        if R.random() < .4: o.append(st("vn", n=R.choice([0, 1, 1, 9])))
        if isreq and R.random() < .1: o.append(st("vj", n=R.choice([1, 2, 65535])))
        for _ in range(R.randrange(0, 5)):
            nm = R.choice([b"X-A", b"x-a", b"Host", b"Accept", rnd(TOK, 1, 10)])
            o.append(st(R.choice(["ah", "ah", "ch"]), a=nm, b=R.choice([b"", b"v", b" lead", b"trail ", b"\ttab", b"a: b", rnd(hv, 0, 20)])))
        if R.random() < .25: o.append(st("ah", a=R.choice([b"Content-Length", b"content-length"]), b=R.choice([b"3", b"0", b"999"])))
        if R.random() < .25: o.append(st("ah", a=b"Transfer-Encoding", b=R.choice([b"chunked", b"gzip"])))
        if R.random() < .25: o.append(st("ah", a=b"Connection", b=R.choice([b"close", b"Keep-Alive", b"upgrade"])))
        for _ in range(R.randrange(0, 3) if R.random() < .4 else 0):
            o.append(st("ac", a=rnd(b"abcxyz019-_", 1, 6), b=rnd([b for b in hv if b not in (34, 39, 44, 59, 32, 9)], 0, 8)))
        return o
    def data(): return R.choice([b"", b"x", b"hello", b"\x00", b"\x00\x01\xff", b"\r\n", b"0\r\n\r\n", b"a" * R.choice([1, 15, 16, 17, 255, 256, 4095, 4096, 70000]), rnd(range(256), 0, 30)])
    def script(chunk):
        s = []
        def writes():
            for _ in range(R.choice([0, 1, 1, 2, 3])):
                k = R.choice("tbnmti")
                if k == "i": s.append("i" + str(R.choice([0, 7, -12, 123456])))
                else:
                    d = data()
                    if k == "m" and not d: d = b"z"
                    s.append(k + T(d))
        if not chunk: writes(); s.append(R.choice("Ss"))
        else:
            for _ in range(R.choice([0, 1, 1, 2, 3, 5])): writes(); s.append("C"); s.append("c")
            writes(); s.append(R.choice("Ff"))
        return s
    N = 6000 if big else 1600
    for i in range(N):
        isreq = i % 2
        mode = R.choice(["write", "write", "again", "head", "send", "sendhead", "w", "w", "w", "w"])
        if mode == "w": mode = "qw" if isreq else "rw"
        sc = ["."]; chunk = False
        if mode in ("qw", "rw"): chunk = R.random() < .6; sc = script(chunk)
        hasbody = (mode in ("qw", "rw")) or R.random() < .6
        o = ops(isreq, 2 if mode == "rw" else int(hasbody))
        if hasbody and R.random() < .6:
            d = data() if mode in ("qw", "rw") or R.random() < .8 else b"b" * 5000
            o.append(st(R.choice(["sb", "sp"]), a=d))
        nocl = not isreq and mode in ("write", "send", "rw") and R.random() < .08
        if nocl: o = [x for x in o if T(b"ontent-")[:9] not in x] + [st("dh", a=b"Content-Length"), st("nocl")]
        if mode == "rw" and R.random() < .3: sc.insert(0, R.choice(["L0", "L1"]))
        if mode == "rw" and R.random() < .15 and chunk: o.append(st("ri", a=b"GET", n=10))
        if mode == "again": o = [x for x in o if not x.startswith("ac;")]
        cases.append(["wire", str(isreq), mode, "+".join(o) or ".", "!".join(sc) or ".", str(R.randrange(2)), "1" if mode == "rw" and T(b"HEAD") in ([x for x in o if x.startswith("ri;")] or [""])[-1] else "0"])
    # responses that have no body
    for scode in (100, 150, 199, 204, 205, 304):
        for mode in ("write", "send", "rw"): cases.append(["wire", "0", mode, st("sc", n=scode), "s" if mode == "rw" else ".", "1", "0"])
    for mode in ("write", "send", "head"):
        for cl in (0, 1): cases.append(["wire", "0", mode, "+".join([st("ri", a=b"HEAD", n=11)]), ".", str(cl), "1"])
    for body in (b"x", b"hello", b"q" * 3000):
        for mode in ("head", "sendhead"): cases.append(["wire", "0", mode, "+".join([st("ri", a=b"HEAD", n=11), st("sb", a=body)]), ".", "1", "1"])
    for L in ("", "L0!", "L1!"):
        for n in (10, 11):
            for script in ("s", "S", "F", "f", "C!C!f", "t120:1!s", "b0:1!C!c!t120:1!f", "n97:300!C!f"): cases.append(["wire", "0", "rw", st("ri", a=b"HEAD", n=n), L + script, str(n % 2), "1"])
    # every size around the chunk length notation and the caches
    for nn in list(range(0, 40)) + [127, 128, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537]:
        for k in "tbn": cases.append(["wire", "0", "rw", st("ri", a=b"GET", n=11), "%s%s!C!c!tx:1!f" .replace("tx:1", "t120:1") % (k, T(b"k" * nn)), "1", "0"])
        cases.append(["wire", "1", "qw", st("sr", a=b"/"), "b%s!F" % T(b"k" * nn), "1", "0"])
    # listed finding: writing a message a second time repeats the headers of its cookies
    kf = {}
    for isreq in (0, 1):
        kf[len(cases)] = isreq
        cases.append(["wire", str(isreq), "again", "+".join([st("ac", a=b"a", b=b"1"), st("ac", a=b"b", b=b"2")] + ([st("sr", a=b"/")] if isreq else [])), ".", "1", "0"])
    decide(ctx, "WriteTrace", cases, known={i: "rewriting-cookies: a %s with cookies that is written twice repeats its %s headers" % (("request", "Cookie") if q else ("response", "Set-Cookie")) for i, q in kf.items()}, knownwhy="headers")
