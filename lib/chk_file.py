"""P30: file services (spec/FileService.tla, FileTrace.tla, FileMC.tla)."""
import os, shutil, tempfile
import vf
from chk_srv import SRC as HSRC, CONST, T, req
SRC = HSRC + ["src/http_plugin_server.cpp", "src/plugin.cpp", "services/FileService.cpp"]
def binary(): return vf.build("h_file", "h_file.cpp", SRC, ["-O1", "-I" + vf.REPO + "/services", "-include", "boost/filesystem/fstream.hpp"] + vf.SAN)
def N(r=b"/f"): return "N;%s" % T(r)
def O(n, v, r=b"/f"): return "O;%s;%s;%s" % (T(r), T(n), T(v))
def W(p, c, t=1600000000, mode="644"): return "W;%s;%s;%d;%s" % (T(b"p/q/r/" + p), T(c), t, mode)
def D(p, mode="755"): return "D;%s;%s" % (T(b"p/q/r/" + p), mode)
def X(p): return "X;%s" % T(b"p/q/r/" + p)
def M(p, t=1600000000, mode="644"): return "M;%s;%d;%s" % (T(b"p/q/r/" + p), t, mode)
def Q(r, m=b"GET", v=b"1.1", h=(), body=None): return "Q;%s" % T(req(r, m, v, h, body))
def decide(ctx, cases):
    b = binary(); ctx.log("built")
    base = tempfile.mkdtemp(prefix="vfile"); os.chmod(base, 0o755); os.chown(base, 65534, 65534)
    try:
        def run(ids, quiet): return vf.run_batch(b, [(i, "%d %s\n" % (i, " ".join(cases[i]))) for i in ids], args=[str(quiet), base])
        def judge(out, ids):
            rej, t = vf.validate("FileTrace", "FileTrace.cfg", [out[i] for i in ids if "crash" not in out[i]], timeout=800)
            ctx.states += t.distinct; ctx.transitions += t.states
            rej.update({i: "the code crashed, threw or hung: " + out[i]["crash"][-700:] for i in ids if "crash" in out[i]})
            return rej
        ids = list(range(len(cases))); out = run(ids, 1); ctx.log("ran", len(ids)); rej = judge(out, ids)
        again = sorted(i for i in rej if "crash" not in out[i])[:150]
        if again:
            out2 = run(again, 60); rej2 = judge(out2, again)
            for i in again: out[i] = out2[i]
            rej = {i: w for i, w in rej.items() if i not in again}; rej.update(rej2)
    finally: shutil.rmtree(base, ignore_errors=True)
    ctx.validated += len(ids)
    for i, why in sorted(rej.items()): ctx.violation("not what the specification says: %s; history: %s" % (why, " ".join(cases[i])[:1500]), {"case": cases[i], "recorded": out[i]})
    ctx.log(len(ids), "decided,", len(rej), "rejected")
    for c in cases[:: max(1, len(cases) // 5)]: ctx.sample(" ".join(c)[:600])
    return out, rej

TREE = [D(b"www"), D(b"www/d"), D(b"www/d/e"), D(b"www2"), D(b"out"), W(b"www/a.txt", b"alpha"), W(b"www/d/b.html", b"<b>beta</b>"), W(b"www/d/e/c.css", b"c" * 30), W(b"www2/s.txt", b"secret2"), W(b"out/s.txt", b"secret"), W(b"s.txt", b"top"), W(b"x/y/z.txt", b"near"), W(b"www/Z", b""), W(b"www/..x", b"dots"), W(b"www/a b+c.TXT", b"plus"), W(b"one.gif", b"GIF")]
def pct(b, R, p=.3): return b"".join(b"%%%02x" % c if R.random() < p or c in b"% ?#" else b"%c" % c for c in b)
def date(t):
    import time
    return time.strftime("%a, %d %b %Y %H:%M:%S GMT", time.gmtime(t)).encode()
ESC = [b"..", b"../", b"../www2/s.txt", b"../www", b"../www/a.txt", b"../out/s.txt", b"d/../../out/s.txt", b"d/../a.txt", b"d/..", b"d/../", b"./a.txt", b".//a.txt", b"/a.txt", b"d/./b.html", b"d//b.html", b"../../r/www/a.txt", b"../www2", b"../wwwx", b"..x", b"../s.txt", b"d/e/../../../out/s.txt", b"d/e/../../a.txt", b"nodir/../a.txt", b"a.txt/../Z", b"a.txt/", b"a.txt/.", b"Z/", b"d/", b"d", b"d/e/", b"../www2/new.txt", b"../new.txt", b"../www.txt", b"../www/../out/s.txt", b"/../out/s.txt", b"/..", b"//", b"/", b".", b"./", b"...", b".../a", b"../x/y/z.txt", b"../x", b"../one.gif", b"../www/new2.txt", b"..\\out\\s.txt"]
DIRS = [b"@/www", b"@/www/", b"../../www", b"../../www/", b"@/x/../www", b"@/www/d", b"@/out/../www/./", b"../../out/../www", b"@/www//d/.."]
def P30(ctx):
    big = ctx.thorough; R = ctx.rng; cases = []
    def cfg(d): return "SPECIFICATION Spec\n" + CONST + " Length = %d\n Steps = %d\n Design = \"%s\"\nINVARIANT Contained Fresh\n" % (8 if big else 6, 10 if big else 7, d)
    ctx.model("FileMC", cfg("sound"), timeout=850)
    for d in ("strings", "unsure", "exact", "times"): ctx.defect("FileMC", cfg(d))
    # which file: every directory with every way to write a path
    for d in DIRS + [b".", b"./", b"../y", b"@"]:
        for wr in (0, 1):
            for i in range(0, len(ESC), 8):
                def ask(p):
                    m = R.choice([b"GET", b"GET", b"HEAD"]) if not wr else R.choice([b"PUT", b"POST", b"DELETE", b"PUT"])
                    return Q(b"/f/" + (p if R.random() < .6 else pct(p, R)), m, body=b"new" if m in (b"PUT", b"POST") else None)
                cases.append([N()] + TREE + [O(b"directory", d), O(b"writable", b"true" if wr else b"false"), "G"] + [ask(p) for p in ESC[i:i + 8]])
    # methods
    for m in (b"GET", b"HEAD", b"PUT", b"POST", b"DELETE", b"TRACE", b"OPTIONS", b"get", b"PATCH", b"X"):
        for wr in (b"true", b"false"):
            for r in (b"", b"/f"):
                body = b"xyz" if m in (b"PUT", b"POST", b"PATCH") else None
                cases.append([N(r)] + TREE + [O(b"directory", b"@/www", r), O(b"writable", wr, r)] + ([O(b"file", b"@/one.gif", r)] if R.random() < .5 else []) + ["G"] + [Q(r + p, m, body=body) for p in (b"/a.txt", b"/a.txt", b"/new.txt", b"/new.txt", b"/d", b"/no/new.txt", b"/../out/s.txt", b"", b"/", b"/%3cb%3e", b"/<i>x", b"/a.txt?x=y", b"/a.txt/z") if r + p])
    # content types and dates
    names = [b"f." + e for e in (b"js", b"txt", b"xml", b"css", b"htm", b"html", b"xhtml", b"gif", b"png", b"jpg", b"jpeg", b"svg", b"eof", b"otf", b"ttf", b"woff", b"HTML", b"Gif", b"tar.js", b"zip", b"x", b"", b"htmlx", b"js.bak", b"ht")] + [b"plain", b".css", b"js", b"a.b.c.PNG", b"...txt", b"\xc3\xa9.txt"]
    for i in range(0, len(names), 6):
        ts = [R.randrange(0, 2**31 - 1) for _ in names[i:i + 6]]
        cases.append([N(), D(b"www")] + [W(b"www/" + n, b"x" * R.randrange(4), t) for n, t in zip(names[i:i + 6], ts)] + [O(b"directory", b"@/www"), "G"] + [Q(b"/f/" + pct(n, R, 1), R.choice([b"GET", b"HEAD"]), h=R.choice([(), ((b"If-Modified-Since", date(t)),)])) for n, t in zip(names[i:i + 6], ts)])
    for t in [0, 1, 59, 86399, 86400, 951782399, 951782400, 951868800, 946684799, 1078012800, 1078099200, 2147483647, 1709164800, 1709251200, 1703980800, 1704067200, 4107542399 % 2**31] + [R.randrange(0, 2**31 - 1) for _ in range(200 if big else 40)]:
        cases.append([N(), D(b"www"), W(b"www/a.txt", b"a", t), O(b"directory", b"@/www"), O(b"cache", R.choice([b"0", b"1", b"2"])), "G"] + [Q(b"/f/a.txt", R.choice([b"GET", b"HEAD"]), h=((b"if-modified-since", x),)) for x in (date(t), date(t).lower(), date(t)[:-4], date(t)[5:], b"x", date(t))])
    # options
    for k, v in [(b"cache", b"3"), (b"cache", b""), (b"cache", b"-1"), (b"cache", b"01"), (b"scan", b"4"), (b"scan", b"x"), (b"writable", b"True"), (b"writable", b"1"), (b"writable", b""), (b"max_chunk_size", b"x"), (b"max_chunk_size", b""), (b"max_chunk_size", b"5x"), (b"directory", b"@/no"), (b"directory", b"@/s.txt"), (b"directory", b""), (b"file", b"@/no"), (b"file", b"@/www"), (b"file", b""), (b"nothing", b"x"), (b"", b""), (b"Cache", b"1"), (b"directory", b"no/../www"), (b"file", b"@/www/a.txt"), (b"max_cache", b"1")]:
        for r in (b"/f", b"/f/", b"/g"):
            cases.append([N(R.choice([b"/f", b"/f/"]))] + TREE + [O(b"cache", b"0", r), O(b"scan", b"0", r), O(k, v, r), O(b"directory", b"@/www", r), O(b"file", b"@/one.gif", r), "G", Q(b"/f/a.txt"), Q(b"/f", b"PUT", body=b"b"), Q(b"/f")])
    # sizes around the chunk size
    for ch in (0, 1, 2, 10, 100, 8192, 100000):
        for n in sorted({0, 1, 2, 9, 10, 11, 20, 21, 99, 100, 101, 199, 200, 201, 8191, 8192, 8193, 20000} if big or ch in (0, 10, 100) else {0, 1, ch - 1, ch, ch + 1, 2 * ch, 2 * ch + 1, 3 * ch}):
            if n < 0 or n > 400000 or (ch and n / ch > 400): continue
            c = R.choice([b"0", b"1", b"2"]); sc = R.choice([b"0", b"0", b"1", b"2", b"3"])
            cases.append([N(), D(b"www"), W(b"www/a.txt", b"q" * n if n > 300 else bytes(R.randrange(256) for _ in range(n))), O(b"directory", b"@/www"), O(b"cache", c), O(b"scan", sc), O(b"max_chunk_size", b"%d" % ch), "G"] + [Q(b"/f/a.txt", m, v, h) for m, v, h in ((b"GET", b"1.1", ()), (b"GET", b"1.0", ()), (b"HEAD", b"1.1", ()), (b"HEAD", b"1.0", ()), (b"GET", b"1.1", ((b"Connection", b"close"),)), (b"GET", b"1.1", ()))])
    # what the cache may answer
    FILES = [b"a.txt", b"d/b.html", b"n.js", b"d/n2"]
    def change(ops, now):
        f = b"www/" + R.choice(FILES); k = R.random()
        t = R.choice([1600000000, 1600000000, 1600000001, now, now, now - 1, now - 2, now + 5])
        if k < .5: ops.append(W(f, R.choice([b"aaaa", b"bbbb", b"cccc", b"ddddd", b""]), t, R.choice(["644"] * 8 + ["000", "444"])))
        elif k < .65: ops.append(X(f))
        elif k < .8: ops.append(M(f, t, R.choice(["644"] * 3 + ["000", "444"])))
        else: ops.append("T;%d" % R.choice([1, 2, 3, 100]))
    for c in (b"0", b"1", b"2"):
        for sc in (b"0", b"1", b"2", b"3"):
            for _ in range(180 if big else 24):
                wr = R.random() < .5; now = [1700000000]
                ops = [N(), D(b"www"), D(b"www/d"), W(b"www/a.txt", b"aaaa"), W(b"www/d/b.html", b"bbbb", R.choice([1600000000, 1700000000]), R.choice(["644", "644", "000"]))]
                if R.random() < .5: ops.append(W(b"one.gif", b"GIF"))
                ops += [O(b"directory", R.choice(DIRS[:4] + [b"@/www"])), O(b"cache", c), O(b"scan", sc), O(b"writable", b"true" if wr else b"false")]
                if ops[5].startswith("W"): ops.append(O(b"file", b"@/one.gif"))
                if R.random() < .3: ops.append(O(b"max_chunk_size", R.choice([b"2", b"4", b"1000"])))
                ops.append("G")
                for _ in range(R.randrange(6, 18)):
                    k = R.random()
                    if k < .35: change(ops, 1700000000)
                    elif k < .4: ops += ["P"] + (["T;5"] if R.random() < .3 else []) + ["G"]
                    else:
                        m = R.choice([b"GET", b"GET", b"GET", b"HEAD"] + ([b"PUT", b"POST", b"DELETE"] if wr else [b"PUT"]))
                        r = b"/f/" + R.choice(FILES) if R.random() < .9 else R.choice([b"/f", b"/f/", b"/f/d//b.html", b"/f/./a.txt", b"/f/d/../a.txt", b"/f/%61.txt"])
                        h = () if R.random() < .7 else ((b"If-Modified-Since", date(R.choice([1600000000, 1600000001, 1700000000, 1699999999]))),)
                        ops.append(Q(r, m, R.choice([b"1.1"] * 5 + [b"1.0"]), h, R.choice([b"xxxx", b"yyyy", b"", b"zzzzz"]) if m in (b"PUT", b"POST") else None))
                cases.append(ops)
    # changes to the disk
    for _ in range(1500 if big else 160):
        ops = [N()] + TREE + [D(b"www/ro")] + ([W(b"www/ro/f", b"fixed", mode=R.choice(["644", "444"]))] if R.random() < .5 else []) + [D(b"www/ro", "555"), W(b"www/fix.txt", b"f", mode="444")]
        two = R.random() < .3
        if two: ops += [N(b"/f/d"), O(b"directory", R.choice([b"@/out", b"@/www/d/e", b"@/www"]), b"/f/d"), O(b"writable", R.choice([b"true", b"false"]), b"/f/d")]
        ops += [O(b"directory", b"@/www"), O(b"writable", b"true"), O(b"cache", R.choice([b"0", b"1", b"2"])), "G"]
        paths = [b"a.txt", b"n.txt", b"d/n", b"d/e/c.css", b"d/e/c.css/x", b"ro/f", b"ro/g", b"fix.txt", b"no/n", b"d", b"d/no/../n", b"\xc3\xbc", b"a b", b"ro"] + ESC
        for _ in range(R.randrange(5, 14)):
            p = R.choice(paths[:14] if R.random() < .7 else paths); m = R.choice([b"PUT", b"PUT", b"POST", b"POST", b"DELETE", b"GET", b"HEAD"])
            b = R.choice([b"", b"x", b"two\r\nlines", b"\0\xff", b"k" * 9000]) if m in (b"PUT", b"POST") else None
            if m in (b"PUT", b"POST") and R.random() < .2: ops.append("Q;%s" % T(m + b" /f/" + pct(p, R, 0) + b" HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n2\r\nde\r\n0\r\n\r\n"))
            else: ops.append(Q(b"/f/" + pct(p, R, R.choice([0, .3])), m, R.choice([b"1.1", b"1.1", b"1.0"]), R.choice([(), (), ((b"Connection", b"close"),)]), b))
        cases.append(ops)
    decide(ctx, cases)
    import chk_mt; chk_mt.files(ctx)
