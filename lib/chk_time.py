"""P33: read timeouts (spec/Timeout.tla, TimeoutTrace.tla, TimeoutMC.tla)."""
import vf
from chk_sched import judge
SRC = ["src/" + f for f in "http_reader.cpp http_parser.cpp http_message.cpp http_types.cpp http_writer.cpp http_server.cpp http_auth.cpp tcp_server.cpp tcp_timer.cpp scheduler.cpp logger.cpp algorithm.cpp admin_rights.cpp".split()]
def rq(hold=False, body=b"", close=False, chunked=False, old=False, ka=False):
    h = b"GET /%s HTTP/1.%d\r\nHost: a\r\n" % (b"h" if hold else b"n", 0 if old else 1)
    if close: h += b"Connection: close\r\n"
    if ka: h += b"Connection: keep-alive\r\n"
    if body and not chunked: h += b"Content-Length: %d\r\n" % len(body)
    if chunked: h += b"Transfer-Encoding: chunked\r\n"
    return h + b"\r\n", (b"%x\r\n%s\r\n0\r\n\r\n" % (len(body), body) if chunked else body), len(body), not close and not old, hold, False
def rs(body=b"", mode="len", close=False, head=b"Server: x\r\n"):
    h = b"HTTP/1.1 200 OK\r\n" + head
    if close: h += b"Connection: close\r\n"
    if mode == "len": h += b"Content-Length: %d\r\n" % len(body)
    if mode == "chunk": h += b"Transfer-Encoding: chunked\r\n"
    return h + b"\r\n", (b"%x\r\n%s\r\n0\r\n\r\n" % (len(body), body) if mode == "chunk" else body), len(body), not close and mode != "until", False, mode == "until"
def P33(ctx):
    big = ctx.thorough; R = ctx.rng
    def cfg(d, n=4 if big else 3): return "SPECIFICATION Spec\nCONSTANTS Threads = {1, 2%s}\n Reads = %d\n Design = \"%s\"\nINVARIANT Own\nPROPERTY Ends\n" % (", 3" if big else "", n, d)
    ctx.model("TimeoutMC", cfg("sound"), timeout=850)
    for d in ("noflag", "nomutex", "nocancel", "oneshot", "early"): ctx.defect("TimeoutMC", cfg(d, 2))
    cases = {}; meta = {}
    def add(kind, T, msgs, ops):
        i = len(cases); cases[i] = "%s %d %s %s" % (kind, T, "|".join(vf.runs_text(h + b) for h, b, *_ in msgs), " ".join(ops))
        # the head counts everything that is not content
        meta[i] = {"T": T * 1000, "Srv": kind == "srv", "Len": [len(m[0] + m[1]) for m in msgs], "Head": [len(m[0] + m[1]) - m[2] for m in msgs], "Keep": [m[3] for m in msgs], "Hold": [m[4] for m in msgs], "Until": [m[5] for m in msgs]}
    def total(msgs): return sum(len(m[0] + m[1]) for m in msgs)
    # one message, every cut, every silence
    for kind, T in [("srv", 10), ("req", 1), ("req", 3), ("req", 0), ("rsp", 1), ("rsp", 2), ("rsp", 0)]:
        W = 1000 * (T or 10)
        mk = (lambda **k: rq(**k)) if kind != "rsp" else None
        sets = [[rq()], [rq(body=b"hello")], [rq(body=b"hello", chunked=True)], [rq(hold=True), rq()], [rq(), rq(close=True)], [rq(close=True), rq()], [rq(old=True), rq()], [rq(old=True, ka=True), rq(hold=True, body=b"xy"), rq()]] if kind != "rsp" else \
               [[rs(b"hello")], [rs(b"hello", "chunk"), rs(b"")], [rs(b"data!", "until")], [rs(b"", "until")], [rs(b"x"), rs(b"abc", "until")], [rs(b"x", close=True), rs(b"y")]]
        for ms in sets:
            L = total(ms); h0 = len(ms[0][0]); cuts = sorted({0, 1, h0 - 2, h0 - 1, h0, h0 + 1, h0 + 2, L // 2, L - 1, L} & set(range(L + 1)))
            for c in cuts:
                for t in (W - 1, W, W + 1, W + 1000, 5 * W) if big or c in (0, 1, h0, L, L - 1) else (R.choice([W - 1, W + 1000]), R.choice([W, 3 * W])):
                    s1 = ["S;1;%d" % c] if c else []
                    add(kind, T, ms, ["C"] + s1 + ["P", "T;%d" % t, "P", "S;1;%d" % L, "P", "T;%d" % (W + 1000), "P", "R;1", "T;%d" % (W - 1), "P", "S;1;%d" % L, "P", "R;1", "T;%d" % (W + 1000), "P"])
                    add(kind, T, ms, ["C"] + s1 + ["P", "T;%d" % (W - 1), "S;1;1", "T;%d" % t, "P", "T;%d" % (W - 1), "P", "T;1", "S;1;%d" % L, "P", "R;1", "E;1", "P", "R;1"])
                    add(kind, T, ms, ["C"] + s1 + ["P", "T;%d" % t, "P", "E;1", "P", "T;%d" % W, "P"])
                    add(kind, T, ms, ["C"] + s1 + ["E;1", "T;%d" % t, "P", "T;%d" % (W + 1000), "P"])
                    add(kind, T, ms, ["C", "C"] + s1 + ["P", "T;%d" % (W // 2), "S;2;%d" % max(1, c), "P", "T;%d" % (W - W // 2), "P", "T;%d" % (W // 2 - 1), "P", "R;2", "T;1001", "P", "R;1"])
            # slow senders are never cut off
            for step in (1, 2, 7):
                if L / step > 70: continue
                add(kind, T, ms, ["C"] + [x for _ in range(0, L, step) for x in ("T;%d" % (W - 1), "S;1;%d" % step, "P", "R;1")] + ["T;%d" % (W + 1000), "P"])
    def rand():
        kind = R.choice(["srv", "srv", "req", "rsp"]); T = 10 if kind == "srv" else R.choice([0, 1, 1, 2, 3, 7, 10, 60]); W = 1000 * (T or 5); n = R.randrange(1, 5)
        if kind == "rsp":
            ms = [rs(b"z" * R.choice([0, 1, 5, 60]), R.choice(["len", "len", "chunk"]), R.random() < .15) for _ in range(n)]
            if R.random() < .4: ms[-1] = rs(b"z" * R.choice([0, 1, 9]), "until")
            ms = [m if not (m[2] == 0 and m[1]) else rs(b"", "len") for m in ms]
        else: ms = [rq(R.random() < .35, R.choice([b"", b"", b"a", b"b" * 30]), R.random() < .15, False, *R.choice([(False, False), (False, False), (True, False), (True, True)])) for _ in range(n)]
        L = total(ms); k = R.choice([1, 1, 2, 3]); ops = ["C"] * k
        for _ in range(R.randrange(3, 28)):
            x = R.random(); c = R.randrange(1, k + 1)
            if x < .3: ops.append("T;%d" % R.choice([1, 500, 999, 1000, 1001, W - 1000, W - 1, W, W + 1, W + 999, W + 1000, 2 * W, W // 2, W // 3, 100 * W]))
            elif x < .6: ops.append("S;%d;%d" % (c, R.choice([1, 2, 10, 30, 31, 60, L, len(ms[0][0]), len(ms[0][0] + ms[0][1])])))
            elif x < .85: ops.append("P")
            elif x < .97: ops.append("R;%d" % c)
            else: ops.append("E;%d" % c)
        add(kind, T, ms, ops + ["P", "R;1", "T;%d" % (W + 1000), "P"])
    for _ in range(30000 if big else 2500): rand()
    ctx.log(len(cases), "cases")
    b = vf.build("h_time", "h_time.cpp", SRC, ["-O1"] + vf.SAN, extra_link=["-rdynamic"])
    def go(todo): return judge_cases(ctx, b, todo, {j: meta[j % len(meta)] for j in todo})
    out, bad = go(cases)
    if bad:
        N = len(cases); again = {k * N + i: cases[i] for i in list(bad)[:12] for k in range(1, 4)}
        _, bad2 = go(again); sure = {i % N for i in bad2}
        for i in [x for x in bad if x in sure][:20]: ctx.violation("%s: %s" % (cases[i][:300], bad[i]), {"case": cases[i], "recorded": out[i]})
        if not sure: ctx.log("not reproducible:", list(bad.values())[:2])
    ctx.extra_cov["histories_run"] = len(cases)
    for i in list(cases)[:: max(1, len(cases) // 5)]: ctx.sample(cases[i][-200:])
def judge_cases(ctx, b, todo, meta):
    from chk_sched import follow
    out = vf.run_batch(b, [(i, "%d %s\n" % (i, p)) for i, p in todo.items()])
    recs, bad = [], {}
    for i in todo:
        o = out[i]
        if "crash" in o: bad[i] = "the program died: " + o["crash"][-600:]; continue
        recs.append({"id": i, "log": o["log"], "case": meta[i]})
    ctx.log("ran", len(todo))
    bad.update(follow(ctx, "TimeoutTrace", recs))
    ctx.log(len(recs), "decided,", len(bad), "rejected")
    return out, bad
