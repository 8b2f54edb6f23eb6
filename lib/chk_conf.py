"""P34: the plug-in server and its configuration files (spec/Conf.tla, PluginServer.tla, ConfTrace.tla, ConfMC.tla)."""
import os
import vf
T = vf.runs_text
SRC = ["src/" + f for f in ("http_plugin_server.cpp plugin.cpp http_auth.cpp http_basic_auth.cpp http_cookie_auth.cpp http_message.cpp http_parser.cpp http_reader.cpp http_server.cpp http_types.cpp http_writer.cpp "
                            "algorithm.cpp tcp_server.cpp tcp_timer.cpp scheduler.cpp logger.cpp admin_rights.cpp").split()]
def L(t): return "%s;%s" % ("L", T(t))
def A(r, k): return "A;%s;%s" % (T(r), k)
def V(r, k): return "V;%s;%s" % (T(r), k)
def O(r, a, b): return "O;%s;%s;%s" % (T(r), T(a), T(b))
def P(r, how="n", u=b"", p=b""): return "P;%s;%s;%s;%s" % (T(r), how, T(u), T(p))
def K(u, p): return "K;%s;%s" % (T(u), T(p))
def D(n): return "D;%s" % n
def P34(ctx):
    big = ctx.thorough; R = ctx.rng; cases = []
    def cfg(d, n): return "SPECIFICATION Spec\nCONSTANTS Alphabet = {118, 86, 114, 49, 35, 32, 10, 13}\n MaxLen = %d\n Design = \"%s\"\nINVARIANT Agrees\n" % (n, d)
    ctx.model("ConfMC", cfg("sound", 7 if big else 5), timeout=850)
    for d in ("dropslast", "stale", "keepsblanks", "trims", "crjoins", "cased"): ctx.defect("ConfMC", cfg(d, 10 if d == "stale" else 5) if d != "stale" else cfg(d, 10).replace("{118, 86, 114, 49, 35, 32, 10, 13}", "{114, 49, 32, 10}"))
    RES = [b"/", b"/a", b"/a/", b"/a/b", b"/ab", b"/p", b"/a//", b"a", b"/A"]
    ASK = [b"/", b"/a", b"/a/", b"/a/b", b"/a/b/c", b"/ab", b"/abc", b"/p/q", b"/A", b"/x", b"/a//b"]
    look = [P(q) for q in ASK]
    good = [b"service /a SvcA", b"service /a/b SvcB", b"service / SvcB", b"option /a x=1", b"option /a z=a=b=", b"option /a =v", b"option /a w=", b"option /a y = 2 ", b"auth basic", b"auth cookie", b"user u p", b"user u q", b"user v a b", b"user u:v p", b"restrict /a", b"restrict /a/b/", b"restrict /", b"path @1", b"path @2 x", b"path @3", b"# text", b"", b"#", b"SERVICE /ab SvcA", b"Auth basic"]
    # what the end of a line does, for the last line and before it
    ends = [b"\n", b"\r\n", b"\r", b"\n\n", b"\n#c\n", b"\r#c\r", b""]
    for first in good:
        for e in ends:
            pre = b"auth basic\nservice /a SvcA\n" if not first.lower().startswith(b"auth") else b"service /a SvcA\n"
            if first.startswith(b"service /a SvcA"): pre = b"auth cookie\n"
            cases.append([L(pre + first + e), "B"] + R.sample(look, 4) + [P(b"/a/b", "b", b"u", b"p"), D("p1"), D("p2"), "E"])
            if e: cases.append([L(pre + first + e + b"service /p SvcB" + R.choice(ends)), "B", P(b"/p/q"), P(b"/a")])
    # lines that are nearly right
    for g in good:
        if not g or g[:1] == b"#": continue
        for _ in range(40 if big else 12):
            b = bytearray(g)
            for _ in range(R.choice([1, 1, 2])):
                i = R.randrange(len(b) + 1); k = R.random()
                if k < .4: b.insert(i, R.choice(b" \t\r\n#=aZ1/\0\xff.:"))
                elif k < .7 and b: del b[min(i, len(b) - 1)]
                elif b: b[min(i, len(b) - 1)] = R.choice(b" \t\r\n#=aZ1/\0\xff")
            if b"." in b and g.startswith(b"path"): continue
            au = R.choice([b"auth basic", b"auth cookie", b"auth basic\nuser u p\nrestrict /a"])
            t = (b"service /a SvcA\n" + (au + b"\n" if not g.lower().startswith(b"auth") else b"")) if not g.startswith(b"service /a SvcA") else b""
            cases.append([L(t + bytes(b) + R.choice(ends)), "B"] + R.sample(look, 3) + [P(b"/a", "b", b"u", b"p"), D("both"), D("only")])
    # a configuration after another; a refused one in between
    full = [b"auth basic\nuser u p\nrestrict /a\n", b"auth cookie\nuser u p\nrestrict /a\n", b"auth basic\nuser w z\nrestrict /p\n", b"service /p SvcA\n", b"#\n", b"", b"auth cookie\n", b"auth basic\nbogus x\n", b"service /a SvcA\n", b"service /q SvcA\nservice /q/ SvcB\n", b"auth basic\nrestrict /a\nauth cookie\nuser u p\n", b"auth cookie\nuser u p\nuser u p2\nrestrict /a", b"user u p\n", b"restrict /a\n", b"auth basic\n\tuser u p\n"]
    for x in full:
        for y in full:
            for z in (full if big else R.sample(full, 1)):
                cases.append([A(b"/a", "A"), L(x), "B", K(b"u", b"p"), P(b"/a", "c"), P(b"/a"), L(y), P(b"/a"), P(b"/a", "c"), P(b"/a", "b", b"u", b"p"), K(b"u", b"p"), P(b"/a", "c"), L(z), P(b"/a"), P(b"/p", "b", b"w", b"z"), P(b"/a", "c"), P(b"/a", "b", b"u", b"p"), "E"])
    # credentials
    names = [b"u", b"U", b"u:v", b":u", b"a\xe9", b"#", b"=", b"n" * 70]; pws = [b"p", b"p ", b"a b", b"p:q", b"#x", b"=", b"x" * 90, b"P", b"p\tq"]
    for n in names:
        for w in pws:
            if not big and R.random() < .4: continue
            au = R.choice([b"basic", b"cookie"])
            cases.append([A(b"/", "B"), L(b"auth " + au + b"\nuser " + n + R.choice([b" ", b"\t", b"  \t"]) + w + b"\nrestrict " + R.choice([b"/a", b"/a/", b"/"]) + R.choice([b"", b"\n"])), "B", P(b"/a"), P(b"/a", "b", n, w), K(n, w), P(b"/a", "c"), P(b"/a", "b", n, w[:-1]), P(b"/a", "b", n, w + b" "), K(n, w.strip() + b"x"), P(b"/a/b", "c"), P(b"/ab"), P(b"/")])
    # several users, services and options in one file
    for au in (b"basic", b"cookie"):
        for us in ([(b"u", b"p"), (b"v", b"q")], [(b"v", b"q"), (b"u", b"p"), (b"uv", b"z")], [(b"a", b"1"), (b"a", b"2"), (b"b", b"3")], [(b"long", b"a b c"), (b"l", b"x y")]):
            for sep in (b" ", b"\t ", b"  "):
                ps = [x for n, w in us for x in ((K(n, w), P(b"/a/x", "c")) if au == b"cookie" else (P(b"/a/x", "b", n, w),))]
                ps += [x for n, w in us[1:] for x in (P(b"/a", "b", us[0][0] + n, w), P(b"/a", "b", n, us[0][1] + w), P(b"/a", "b", us[0][0], w), K(n, us[0][1]), K(us[0][0] + n, w))]
                cases.append([L(b"service /a SvcA\nservice /b SvcB\nauth " + au + b"\n" + b"".join(b"user" + sep + n + sep + w + b"\n" for n, w in us) + b"restrict /a\nrestrict /c\noption /b k=v=w\noption /a l==\noption /b m=1 2"), "B"] + ps + [P(b"/b"), P(b"/c"), P(b"/c", "b", *us[-1])])
    # life
    for _ in range(2500 if big else 350):
        ops = []
        for _ in range(R.randrange(4, 16)):
            k = R.random(); r = R.choice(RES)
            if k < .14: ops.append(A(r, R.choice("AB")))
            elif k < .28: ops.append(V(r, R.choice("ABABC")))
            elif k < .4: ops.append(O(r, R.choice([b"x", b"y", b"", b"bad", b"x"]), R.choice([b"1", b"", b"a=b"])))
            elif k < .54: ops.append("B")
            elif k < .63: ops.append("E")
            elif k < .68: ops.append("X")
            elif k < .70: ops.append("M")
            elif k < .85: ops.append(P(R.choice(ASK)))
            elif k < .9: ops.append("D;" + R.choice(["p1", "p2", "both", "only", "p1.so", "both.so", "nothing"]))
            else:
                ls = [R.choice(good) for _ in range(R.randrange(1, 5))]
                if R.random() < .7: ls = [x for x in ls if not x.startswith((b"user", b"restrict"))] or [b""]
                ops.append(L(R.choice(ends[:5]).join(ls) + R.choice(ends)))
        cases.append(ops + ["Z"])
    cases = [c if c[-1] == "Z" else c + ["Z"] for c in cases]
    ctx.log(len(cases), "cases")
    sc = vf.scratch(); at = os.path.join(sc, "conf"); os.makedirs(at + "/d1"); os.makedirs(at + "/d2 x"); os.makedirs(at + "/files")
    for f in ("d1/p1.so", "d1/both.so", "d1/only", "d2 x/p2.so", "d2 x/both.so"): open(os.path.join(at, f), "w").close()
    b = vf.build("h_conf", "h_conf.cpp", SRC, ["-O1", "-DPION_STATIC_LINKING"] + vf.SAN); ctx.log("built")
    def run(ids):
        out = vf.run_batch(b, [(i, "%d %s\n" % (i, " ".join(cases[i]))) for i in ids], args=[at + "/files", at + "/d"])
        recs = [out[i] for i in ids if "crash" not in out[i]]
        rej, t = vf.validate("ConfTrace", "ConfTrace.cfg", recs, timeout=800); ctx.states += t.distinct; ctx.transitions += t.states
        rej.update({i: "the code crashed, threw or hung: " + out[i]["crash"][-700:] for i in ids if "crash" in out[i]})
        return out, rej
    ids = list(range(len(cases))); out, rej = run(ids); ctx.log("ran and decided")
    if rej:   # once more: another process may have had the port
        again = sorted(rej)[:100]; out2, rej = run(again); out.update(out2)
    ctx.validated += len(ids); ctx.extra_cov["histories_run"] = len(ids)
    for i, why in sorted(rej.items())[:20]: ctx.violation("not what the specification says: %s; history: %s" % (why, " ".join(cases[i])[:1500]), {"case": cases[i], "recorded": out[i]})
    for c in cases[:: max(1, len(cases) // 5)]: ctx.sample(" ".join(c)[:500])
