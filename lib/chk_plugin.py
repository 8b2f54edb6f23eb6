"""P16-P18: plug-in libraries, lookup and registry (spec/Plugin.tla, Registry.tla)."""
import os, itertools, subprocess, shutil
import vf
import chk_sched as S
def libs():
    d = os.path.join(vf.BUILD, "plug"); os.makedirs(d, exist_ok=True)
    src = os.path.join(vf.VERIF, "harness/plug/lib.c")
    for tag in ("A1", "A2", "B1", "C1", "N1", "D1", "T1"):
        out = os.path.join(d, tag)
        if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(src): continue
        cmd = ["gcc", "-shared", "-fPIC", "-fexceptions", "-w", "-DNAME=" + tag[0], '-DTAG="%s"' % tag, src, "-o", out + ".tmp"] + (["-DNO_CREATE"] if tag == "N1" else []) + (["-DNO_DESTROY"] if tag == "D1" else [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise vf.BuildFailure(r.stdout)
        os.rename(out + ".tmp", out)
    return d

def run(ctx, module, cases, conc=False):
    b = vf.build("h_plugin", "h_plugin.cpp", ["src/plugin.cpp"], ["-O1"] + vf.SAN, extra_link=["-rdynamic"]); d = libs()
    sc = os.path.join(vf.scratch(), "plug%d" % len(os.listdir(vf.scratch()))); os.makedirs(sc)
    ctx.log("built")
    out = vf.run_batch(b, [(i, "%d %s\n" % (i, " ".join(c))) for i, c in enumerate(cases)], args=[d, sc])
    recs = []
    for i, c in enumerate(cases):
        if "crash" in out[i]: ctx.violation("%s: the code crashed or hung: %s" % (" ".join(c)[:600], out[i]["crash"][-700:]), {"case": c})
        else: recs.append(out[i])
    ctx.log("ran", len(recs))
    rej, t = vf.validate(module, module + ".cfg", recs, timeout=800)
    ctx.states += t.distinct; ctx.transitions += t.states; ctx.validated += len(recs)
    for i, why in sorted(rej.items()): ctx.violation("%s: not what the specification says: %s" % (" ".join(cases[i])[:900], why), {"case": cases[i], "recorded": out[i]})
    ctx.log(len(recs), "decided,", len(rej), "rejected")
    for c in cases[:: max(1, len(cases) // 4)]: ctx.sample(" ".join(c))

FS = ["mk;@/d1;dir", "mk;@/d2;dir", "mk;@/d1/A.so;A1", "mk;@/d2/A.so;A2", "mk;@/d1/B.so;B1", "mk;@/d2/C.so;C1", "mk;@/d1/N.so;N1", "mk;@/d1/D.so;D1", "mk;@/d2/T.so;T1", "mk;@/d1/junk.so;txt", "ad;@/d1", "ad;@/d2"]
def P16(ctx):
    big = ctx.thorough; R = ctx.rng
    ctx.model("PluginMC", "SPECIFICATION Spec\nCONSTANTS Threads = {t1, t2%s}\n Names = {\"A\"%s}\n MaxLoads = %d\nINVARIANT Counted LoadedWhileUsed\n" % (", t3" if big else "", "" if big else ", \"B\"", 2 if big else 2), timeout=850)
    ref = []
    # every short history of two references
    al = ["o;1;A", "o;1;B", "o;2;A", "c;1", "c;2", "a;1;2", "a;2;1", "a;1;1", "y;2;1", "o;1;X", "f;1;@/d1/A.so", "f;2;@/d2/A.so", "f;1;@/d1/N.so", "n;1", "x;1"]
    for k in range(1, 4):
        for s in itertools.product(al, repeat=k):
            if k == 3 and not big and R.random() > .55: continue
            ref.append(["ref"] + FS + list(s))
    for s in itertools.product(["ic;1;A", "ic;1;B", "ir;1", "id;1", "ic;1;X", "ic;1;T", "ic;1;D", "o;1;A", "c;1"], repeat=3):
        if R.random() < (1 if big else .6): ref.append(["ref"] + FS + list(s))
    names = ["A", "B", "C", "N", "D", "T", "junk", "X", "d1/A", "d2/A.so", "@/d2/A", "@/d1/B.so", "d1", "d1/junk"]
    files = ["@/d1/A.so", "@/d2/A.so", "@/d1/B.so", "@/d2/C.so", "@/d1/N.so", "@/d1/D.so", "@/d2/T.so", "@/d1/junk.so", "@/d1/X.so", "@/d2", "@/nowhere/A.so", "d1/A.so", "@/d2/../d1/B.so"]
    def step():
        k = R.random(); s = R.randrange(1, 4); t = R.randrange(1, 4); i = R.randrange(1, 3)
        if k < .25: return "o;%d;%s" % (s, R.choice(names[:3] if R.random() < .6 else names))
        if k < .38: return "f;%d;%s" % (s, R.choice(files))
        if k < .50: return "c;%d" % s
        if k < .60: return "a;%d;%d" % (s, t)
        if k < .66: return "y;%d;%d" % (s, t) if s != t else "c;%d" % s
        if k < .74: return "n;%d" % s
        if k < .80: return "x;%d" % s
        if k < .90: return "ic;%d;%s" % (i, R.choice(names[:3] if R.random() < .6 else names))
        if k < .94: return "ir;%d" % i
        if k < .97: return "id;%d" % i
        return R.choice(["st;A", "st;B", "rd", "ls"])
    for _ in range(8000 if big else 1200): ref.append(["ref"] + FS + [step() for _ in range(R.randrange(4, 40))])
    run(ctx, "PluginTrace", ref)
    conc = []
    def cstep():
        k = R.random(); s = R.randrange(2)
        if k < .45: return "o;%d;%s" % (s, R.choice(["A", "A", "B"]))
        if k < .75: return "c;%d" % s
        if k < .88: return "a;%d;%d" % (s, R.randrange(2))
        return "n;%d" % s
    for _ in range(2500 if big else 300):
        c = ["conc", "mk;@/d1;dir", "mk;@/d1/A.so;A1", "mk;@/d1/B.so;B1", "ad;@/d1"]
        for _ in range(R.choice([2, 3, 4])): c += ["/"] + [cstep() for _ in range(R.randrange(5, 40))]
        conc.append(c)
    run(ctx, "PluginTrace", conc)
    d = os.path.join(vf.scratch(), "racelibs"); os.makedirs(d)
    for n in ("A", "B", "C"): shutil.copy(os.path.join(libs(), n + "1"), os.path.join(d, n + ".so"))
    S.shared(ctx, ["plug"], ["src/plugin.cpp"], [d])

def P17(ctx):
    big = ctx.thorough; R = ctx.rng
    ctx.model("PluginMC", "SPECIFICATION Spec\nCONSTANTS Threads = {t1, t2}\n Names = {\"A\"}\n MaxLoads = 2\nINVARIANT Counted LoadedWhileUsed\n", timeout=850)
    cases = []
    base = ["mk;@/w;dir", "mk;@/d1;dir", "mk;@/d2;dir", "mk;@/d1/sub;dir"]
    # every subset of the places one name can be at, in every order of the directories
    places = ["@/w/A", "@/w/A.so", "@/d1/A", "@/d1/A.so", "@/d2/A", "@/d2/A.so"]
    for mask in range(64):
        for dirs in (["ad;@/d1", "ad;@/d2"], ["ad;@/d2", "ad;@/d1"], ["ad;@/d2"], [], ["ad;@/d1", "ad;@/d1", "ad;@/d2"], ["ad;@/w", "rd", "ad;@/d2"]):
            fs = []
            for j, p in enumerate(places):
                if mask >> j & 1: fs.append("mk;%s;%s" % (p, "A2" if "d2" in p else "A1"))
            kinds = R.choice(["", "dir"])
            if kinds and mask & 1: fs[0] = "mk;@/w/A;dir"
            cases.append(["ref"] + base + fs + ["cd;@/w"] + dirs + ["fp;A", "fp;A.so", "fp;@/d1/A", "fp;./A", "fp;../d2/A", "o;1;A", "n;1", "x;1", "ls", "cd;@", "fp;A", "o;2;A", "fp;w/A"])
    # random trees
    names = ["A", "B", "C", "x", "x.y", "A.so", "sub/A", "sub/B.so", "./A", "../d1/A", "sub", "d1", "x.conf", "x.y.conf", "a.so.so", "a.so", "A.conf", "no", "sub/no", "..", ".", "A.so.bak", "A.SO", "libA"]
    dirsp = ["@/w", "@/d1", "@/d2", "@/d1/sub", "@/d2/sub"]
    def tree():
        fs = ["mk;@/w;dir", "mk;@/d1;dir", "mk;@/d2;dir"] + (["mk;@/d1/sub;dir"] if R.random() < .7 else []) + (["mk;@/d2/sub;dir"] if R.random() < .5 else [])
        have = {f.split(";")[1] for f in fs}; out = []
        for _ in range(R.randrange(0, 14)):
            d = R.choice([x for x in dirsp if x in have]); nm = R.choice(["A", "B", "C", "x", "x.y", "a.so", "sub"] if R.random() < .6 else ["libA", "N", "D", "J"])
            p = d + "/" + nm + R.choice([".so", ".so", ".conf", "", ".so.bak", ".SO"])
            if p in have: continue
            have.add(p)
            k = R.choice(["txt", "txt", "lib", "lib", "dir", "fifo", "link", "deadlink"])
            if k == "lib": k = {"A": "A1", "B": "B1", "C": "C1", "N": "N1", "D": "D1"}.get(nm, "A2")
            if k == "link":
                t = [x for x in out if x.split(";")[2] in ("txt", "A1", "A2", "B1", "C1")]
                if not t: k = "txt"
                else: out.append("mk;%s;link;%s" % (p, R.choice(t).split(";")[1])); continue
            if k == "deadlink": out.append("mk;%s;link;@/nowhere" % p); continue
            out.append("mk;%s;%s" % (p, k))
        return fs + out
    for _ in range(9000 if big else 1800):
        steps = tree() + ["cd;@/w"]
        for _ in range(R.randrange(4, 22)):
            k = R.random()
            if k < .2: steps.append("ad;" + R.choice(["@/d1", "@/d2", "@/w", "@/d1/sub", ".", "..", "../d1", "../d2/../d1", "@/d1/A.so", "@/nowhere", "@/d1/x.conf", "", "@/d2/sub"][:11] if True else []))
            elif k < .23: steps.append("rd")
            elif k < .27: steps.append("cd;" + R.choice(["@/w", "@/d1", "@/d2"]))
            elif k < .33: steps.append("st;" + R.choice("AB"))
            elif k < .62: steps.append("fp;" + R.choice(names))
            elif k < .74: steps.append("fc;" + R.choice(names))
            elif k < .86: steps.append("ls")
            elif k < .95: steps += ["o;1;" + R.choice(names), "n;1", "x;1"]
            else: steps.append("c;1")
        cases.append(["ref"] + steps)
    run(ctx, "PluginTrace", cases)

def P18(ctx):
    big = ctx.thorough; R = ctx.rng
    ctx.model("RegistryMC", "SPECIFICATION Spec\nCONSTANT MaxObj = %d\nINVARIANT Unique OnceEach Longest\n" % (4 if big else 3), timeout=850)
    cases = []
    ids = ["/a", "/a/b", "/ab", "/a-b", "/a/b/c", "", "/aa", "/a0", "/a/c", "/b", "/a/b-c", "a"]
    res = ["", "/", "/a", "/a/", "/a/b", "/a/b/", "/a/b/c", "/a/b/c/d", "/a/bc", "/ab", "/ab/x", "/a-b", "/a-b/x", "/a-", "/aa/b", "/a0/b", "/a0", "/a/c/d", "/b/x", "/c", "/a//b", "a/b", "a", "//", "/A", "/a/b-c/d", "/a/b-", "b/a"]
    # every set of a few identifiers, all resources
    for k in range(1, 5 if big else 4):
        for sub in itertools.combinations(ids, k):
            if k == 3 and not big and R.random() > .6: continue
            p = list(sub); R.shuffle(p)
            cases.append(["mgr"] + ["add;" + i for i in p] + ["find;" + r for r in res])
    # random identifiers
    def rid(): return "".join("/" + "".join(R.choice("ab-.0zA") for _ in range(R.randrange(1, 4))) for _ in range(R.randrange(1, 4)))
    for _ in range(4000 if big else 800):
        I = [rid() for _ in range(R.randrange(1, 12))]; I = list(dict.fromkeys(I))
        rs = []
        for _ in range(20):
            b = R.choice(I); rs.append(R.choice([b, b + "/", b + "/x", b + "/x/y", b + "x", b[:-1], b[:R.randrange(len(b))], b + "-", rid()]))
        cases.append(["mgr"] + ["add;" + i for i in I] + ["find;" + r for r in rs] + ["rem;" + I[0]] + ["find;" + r for r in rs[:8]])
    # every short history, then long ones
    al = ["add;/a", "add;/a/b", "load;/a;A", "load;/a;B", "rem;/a", "rep;/a", "repc;/a", "clr", "find;/a/b/c", "get;/a", "load;/a;T", "load;/a;none", "del"]
    for k in range(1, 5 if big else 4):
        for s in itertools.product(al, repeat=k):
            if k == 4 and R.random() > .25: continue
            # host objects replace host objects only
            if any(x == "rep;/a" for x in s):
                st = None; bad = False
                for x in s:
                    if x.startswith("load;/a;") and x[-1] in "AB" and st is None: st = "lib"
                    elif x == "add;/a" and st is None: st = "host"
                    elif x in ("rem;/a", "clr", "del"): st = None
                    elif x == "rep;/a" and st == "lib": bad = True
                if bad: continue
            cases.append(["mgr"] + list(s) + ["run", "emp"])
    for _ in range(6000 if big else 1200):
        st = {}; steps = []; I = ["/a", "/a/b", "/b", "", "/a-b"]
        for _ in range(R.randrange(5, 40)):
            i = R.choice(I); k = R.choice(["add", "load", "load", "rem", "rep", "repc", "get", "find", "find", "clr", "emp", "run", "run1", "stat", "stat1", "lib", "del"])
            if k == "rep" and st.get(i) == "lib": k = "repc"
            if k == "clr" and R.random() < .6: k = "get"
            if k == "del" and R.random() < .6: k = "find"
            t = R.choice(["A", "B", "C", "A", "T", "none"])
            if k == "add": st.setdefault(i, "host")
            if k == "load" and t in "ABC": st.setdefault(i, "lib")
            if k == "rem": st.pop(i, None)
            if k in ("clr", "del"): st = {}
            steps.append("load;%s;%s" % (i, t) if k == "load" else "find;" + R.choice(res) if k == "find" else "%s;%s" % (k, i) if k in ("add", "rem", "rep", "repc", "get", "run1", "stat1", "lib") else k)
        cases.append(["mgr"] + steps)
    # concurrent registration and lookup; concurrent registration and removal
    for j in range(5000 if big else 900):
        pre = [R.choice(["add;/a", "load;/a;A", "add;/b", "load;/c;C", "emp"])]
        def cs():
            i = R.choice(["/a", "/b"])
            if j % 2: return R.choice(["add;" + i, "load;%s;A" % i, "get;" + i, "find;%s/x" % i, "load;%s;B" % i])
            return R.choice(["add;" + i, "load;%s;A" % i, "rem;" + i, "emp", "load;%s;C" % i, "repc;" + i if R.random() < 0 else "rem;" + i])
        c = ["mconc"] + pre
        for _ in range(R.choice([2, 3])): c += ["/"] + [cs() for _ in range(R.randrange(1, 4))]
        cases.append(c)
    run(ctx, "RegistryTrace", cases)
    S.shared(ctx, ["reg", "kept"], ["src/plugin.cpp"])
