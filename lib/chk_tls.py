"""P35: the HTTP server behind TLS (spec/TlsServer.tla, TlsTrace.tla)."""
import vf
import chk_srv as H
from chk_srv import A, C, S, K, U, Z, RD, D, req, chunked, SRC
T = vf.runs_text
def G(c=0, n=0): return "G;%d;%d" % (c, n)
def N(n, b, c=0): return "N;%d;%d;%s" % (c, n, T(b))
def J(b, c=0): return "J;%d;%s" % (c, T(b))
def M(i, b, c=0): return "M;%d;%d;%s" % (c, i, T(b))
def Y(c=0): return "Y;%d" % c
def E(c=0): return "E;%d" % c
def X(c=0): return "X;%d" % c

def histories(ctx):
    big = ctx.thorough; R = ctx.rng; cases = []
    ALL = [A(b"/%c" % ord(k), k, k) for k in "ndsgctbxu"]
    NN = [A(b"/n", "n")]
    q1, q2 = req(b"/n"), req(b"/n", b"POST", body=b"abc")
    PLAIN = [req(b"/n"), b"GET / HTTP/1.0\r\n\r\n", req(b"/n", b"POST", body=b"x" * 300), b"HEAD /n HTTP/1.1\r\n\r\n", b"CONNECT n:1 HTTP/1.1\r\n\r\n", b"\r\n" * 8, b"\0" * 20, b"SSH-2.0-x\r\n\r\n"]
    SOME = [b"", b"G", b"GE", b"GET /n HTT", b"\x16", b"\x16\x03\x01", b"\x16\x03\x01\x00\x05", b"\x16\x03\x01\x00\x05hello", b"\x16\x03\x01\x40\x00" + b"z" * 300, b"\x16\x03\x03\x00\x04\x01\x00\x00\x00", b"\x17\x03\x03\x00\x20" + b"q" * 32, b"\x80\x2e\x01\x03\x01" + b"\0" * 43, b"\x17\x03\x03\x00\x03abc" + q1, b"\xff" * 40]
    def add(key, ops, auth="none", vs="23"):
        for v in vs: cases.append([auth, key + v] + ops)
    # no handshake, an unfinished one, a failed one
    for k in PLAIN + [x for x in SOME if x]:
        add("good", NN + [C(0), J(k), S(q1), C(1), G(1), S(q1, 1), J(q1), E(0), S(q1, 1)])
        add("good", NN + [C(0), J(k), X(0), C(1), G(1), S(q1, 1)])
        add("good", NN + [C(0), G(), J(k), S(q1), N(20, q1), G(), E(0), C(1), G(1), S(q1, 1)])
        add("good", NN + [C(0), G(), S(q1), J(k), X(0), C(1), G(1), S(q2, 1)])
        add("none", NN + [C(0), J(k), E(0)], vs="2"); add("bad", NN + [C(0), J(k), X(0)], vs="3")
    for k in PLAIN[:4] + SOME[3:12]:
        for n in (1, 5, 60, 150): add("good", NN + [C(0), G(0, n), J(k), G(), S(q1), E(0), C(1), G(1), S(q1, 1)], vs="23" if big else R.choice("23"))
    for n in list(range(1, 260, 1 if big else 9)) + [4, 5, 6]:
        add("good", NN + [C(0), G(0, n), C(1), G(1), S(q1, 1), G(), S(q1), S(q2, 1)], vs="23" if big else R.choice("23"))
        add("good", NN + [C(0), G(0, n), R.choice([E(0), X(0)]), C(1), G(1), S(q1, 1)], vs="23" if big else R.choice("23"))
        add("good", NN + [C(0), G(0, 1000), G(0, n), R.choice([E(0), X(0), S(q1), G()]), S(q1), C(1), G(1), S(q1, 1)], vs="23" if big else R.choice("23"))
    for v in "23":
        for n in (1, 2, 3, 7): cases.append(["none", "good" + v] + NN + [C(0)] + [G(0, n)] * (400 // n) + [G(), S(q1)])
    for key in ("none", "bad"):
        for v in "23p":
            cases.append(["none", key + v] + NN + [C(0), G(), S(q1), C(1), C(2), G(2), G(1), S(q1, 1), "E;0"])
            if v != "p":
                for n in (1, 5, 100, 224, 225, 226, 250): cases.append(["none", key + v] + NN + [C(0), G(0, n), J(q1), E(0), C(1), G(1, n), G(1), S(q1, 1)])
    # a message in parts, altered, cut off
    for w in (q1, q2, q1 + q1, chunked(b"/n", [b"xy", b"z"])):
        for n in ([1, 2, 3, 4, 5, 6, 12, 20, 29, 30, 40, 60, 200] if not big else range(1, len(w) + 45)):
            add("good", NN + [C(), G(), N(n, w), G(), S(q1)], vs="23" if big else R.choice("23"))
            add("good", NN + [C(0), G(), S(q1), N(n, w), R.choice([E(0), X(0)]), C(1), G(1), S(q1, 1)], vs="23" if big else R.choice("23"))
            add("good", NN + [C(0), G(), N(n, w), G(0, 3), G(0, 1), J(q1), E(0), C(1), G(1), S(q1, 1)], vs=R.choice("23"))
            add("good", NN + [C(0), G()] + R.choice([[], [S(q1)], [S(q1 + q1[:9])]]) + [M(n, w), S(q1), N(9, q1), G(), E(0), C(1), G(1), S(q1, 1)], vs="23" if big else R.choice("23"))
    for w in (b"", q1[:5], q1, req(b"/d"), req(b"/x"), q1 + req(b"/d")):
        for end in (Y, E, X):
            for v in "23": cases.append(["none", "good" + v] + ALL + [C(0), C(1), G(0), G(1)] + ([S(w)] if w else []) + [end(0), "F;0", S(q1, 1), Y(1)])
            for v in "23": cases.append(["none", "good" + v] + ALL + [C(0), C(1), G(0), G(1)] + ([S(w)] if w else []) + ["F;0", end(0), S(q1, 1), E(1)])
    # sizes around a TLS record (16384) and the read buffer (8192)
    for n in ([1, 8100, 8191, 8192, 8193, 16383, 16384, 16385, 24576, 40000, 100000] if big else [8191, 8193, 16384, 16385, 50000]):
        for v in "23p": cases.append(["none", "good" + v] + ALL + [C(), G(), S(req(b"/n", b"POST", body=b"z" * n) + q1 + chunked(b"/c", [b"k" * n, b"l" * 3]) + req(b"/s")), S(q1)])
    for d in range(-2, 3):
        pad = 8192 + d - len(req(b"/n", b"POST", body=b"q" * 8000)) + 8000
        for tail in (q1, q2 + q1, b"G"): cases.append(["none", "good" + R.choice("23p")] + ALL + [C(), G(), S(req(b"/n", b"POST", body=b"q" * pad) + tail), S(req(b"/g"))])
    # tables, users and sessions: what HTTP does, through TLS
    for _ in range(700 if big else 90):
        v = R.choice("23p"); key = "good" + v; n = R.choice([1, 1, 2, 3]); up = []; todo = []
        au = R.choice(["none", "none", "basic;%s" % T(b"realm"), "cookie;%s;%s;%s" % (T(b"/login"), T(b"/logout"), T(b""))])
        ops = [au, key] + ALL + (["H;" + R.choice(["n", "b", "s", "nbs"])] if R.random() < .4 else []) + ([RD(b"/r", b"/n")] if R.random() < .5 else [])
        if au != "none": ops += [U("a", b"u", b"p"), Z("r", R.choice([b"/n", b"/c", b"", b"/s"]))]
        nlog = 0
        for c in range(n):
            q = [C(c), G(c)]
            for _ in range(R.choice([1, 2, 3, 5])):
                k = R.choice("nnnndsgctb" if R.random() < .85 else "xu"); r = b"/%c" % ord(k) + R.choice([b"", b"?q=1", b"/sub"])
                if R.random() < .2: r = R.choice([b"/r", b"/zz", b"/login?user=u&pass=p", b"/login?user=u&pass=z", b"/logout"])
                h = [(b"Authorization", b"Basic " + H.b64(b"u:p"))] if au[0] == "b" and R.random() < .6 else []
                w = req(r, R.choice([b"GET", b"GET", b"HEAD", b"POST"]), R.choice([b"1.1"] * 5 + [b"1.0"]), h, R.choice([None, None, b"body"]))
                if au[0] == "c" and R.random() < .5: q.append(K(R.randrange(2), req(r)[:-2] + b"Cookie: pion_session_id=", b"\r\n\r\n", c)); continue
                if R.random() < .06: w = R.choice([b"GET / HTTP/1.1\r\nbad header\r\n\r\n", b"G@T / HTTP/1.1\r\n\r\n"])
                if v != "p" and R.random() < .25: q += [N(R.randrange(1, len(w) + 20), w, c), G(c)]
                elif R.random() < .3: q += [S(x, c) for x in H.pieces(R, w, "some")]
                else: q.append(S(w, c))
            x = R.random()
            if x < .2: q.append(E(c))
            elif x < .3 and v != "p": q.append(Y(c))
            elif x < .4 and not any(y[0] in "SN" and "47:1,100:1" in y for y in q): q.append(X(c))     # (what is queued behind an answer may or may not be served then)
            todo.append(q)
        while any(todo):
            c = R.randrange(n)
            if todo[c]: ops.append(todo[c].pop(0))
            if R.random() < .25: ops.append("F;%d" % R.randrange(0, 4))
            if R.random() < .05: ops.append("T;%d" % R.choice([10, 3600]))
        cases.append(ops + ["F;%d" % i for i in range(6)])
    return cases
def P35(ctx):
    big = ctx.thorough
    base = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Conns = {%s}\n Most = %d\n Design = \"%s\"\nINVARIANT OnlyRequests NothingBare Pool\nPROPERTY AllServed\n"
    ctx.model("TlsMC", base % ("1", 7 if big else 5, "sound"), timeout=850)
    ctx.model("TlsMC", base % ("1, 2", 4 if big else 3, "sound"), timeout=850)
    for d in ("early", "fallback", "kept", "eager", "skips", "clear", "half"): ctx.defect("TlsMC", base % ("1", 5, d))
    cases = histories(ctx); ctx.log(len(cases), "cases")
    b = vf.build("h_tls", "h_tls.cpp", SRC, ["-O1"] + vf.SAN); dirn = str(vf.scratch())
    def run(ids, quiet): return vf.run_batch(b, [(i, "%d %s\n" % (i, " ".join(cases[i]))) for i in ids], args=[str(quiet), dirn])
    def judge(out, ids):
        recs = [out[i] for i in ids if "crash" not in out[i]]
        rej, t = vf.validate("TlsTrace", "TlsTrace.cfg", recs, timeout=800)
        ctx.states += t.distinct; ctx.transitions += t.states
        rej.update({i: "the code crashed, threw or hung: " + out[i]["crash"][-700:] for i in ids if "crash" in out[i]})
        return rej
    ids = list(range(len(cases))); out = run(ids, 1); ctx.log("ran", len(ids))
    rej = judge(out, ids)
    again = sorted(i for i in rej if "crash" not in out[i])[:150]
    if again:   # a busy machine may have delayed the loopback network: wait longer
        out2 = run(again, 60); rej2 = judge(out2, again)
        for i in again: out[i] = out2[i]
        rej = {i: w for i, w in rej.items() if i not in again}; rej.update(rej2)
    ctx.validated += len(ids)
    for i, why in sorted(rej.items()): ctx.violation("not what the specification says: %s; history: %s" % (why, " ".join(cases[i])[:1500]), {"case": cases[i], "recorded": out[i]})
    ctx.log(len(ids), "decided,", len(rej), "rejected")
    for c in cases[:: max(1, len(cases) // 5)]: ctx.sample(" ".join(c)[:600])
