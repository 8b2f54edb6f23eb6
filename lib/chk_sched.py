"""P19, P20: schedulers under a controlled thread scheduler (spec/Scheduler.tla, SchedTrace.tla, SchedulerMC.tla)."""
import os, re, itertools, json, subprocess
import vf

def follow(ctx, module, recs, timeout=800, heap="8g"):
    """accepted if some behaviour of the specification reaches the end of the history; the histories that are
    not are followed again to find the first event no behaviour explains"""
    if not recs: return {}
    path = os.path.join(vf.scratch(), "%s_%d.ndjson" % (module, len(os.listdir(vf.scratch()))))
    def go(rs, loud):
        with open(path, "w") as f:
            for r in rs: f.write(json.dumps(r) + "\n")
        env = {"TRACE": path}
        if loud: env["LOUD"] = "1"
        t = vf.tlc(module, module + ".cfg", env=env, timeout=timeout, heap=heap)
        os.remove(path)
        return t
    t = go(recs, False)
    if not t.ok: raise vf.CheckError("trace module %s: %s\n%s" % (module, t.violations, t.out[-3000:]))
    ctx.states += t.distinct; ctx.transitions += t.states; ctx.validated += len(recs)
    ok = {int(re.match(r"(\d+)", p).group(1)) for p in t.prints if '"ok"' in p}
    bad = [r for r in recs if r["id"] not in ok]
    res = {r["id"]: "no behaviour explains it" for r in bad}
    if bad:
        t = go(bad[:5], True)
        far = {}
        for a, b in re.findall(r'^<<"@@@", (\d+), (\d+)>>$', t.out, re.M): far[int(a)] = max(far.get(int(a), 0), int(b))
        for r in bad[:5]:
            k = far.get(r["id"], 0)
            e = r["log"][k] if k < len(r["log"]) else None
            ctxt = " ".join(fmt(x) for x in r["log"][max(0, k - 25):k])
            res[r["id"]] = "no behaviour explains event %d (%s) after: %s" % (k + 1, fmt(e) if e else "end", ctxt)
    return res

def fmt(e):
    k = e["e"]
    if k == "call" and "c" not in e or k == "ret" and "c" not in e: return json.dumps(e)
    if k == "call": return "%s#%d(t%d%s%s)" % (e["op"], e["c"], e.get("t", 0), ",job %d" % e["j"] if e.get("j") else "", ",%r" % bytes(e["n"]) if e.get("n") else "")
    if k == "ret": return "ret#%d=%s" % (e["c"], e["r"] if not isinstance(e["r"], list) else bytes(e["r"]).decode("latin-1"))
    if k in ("js", "je"): return "%s(job %d on t%d)" % ("start" if k == "js" else "end", e["j"], e["w"])
    if k in ("ws", "we"): return "%s(t%d)" % ("thread+" if k == "ws" else "thread-", e["w"])
    return k

def execute(ctx, progs, harness="h_sched", srcs=("src/scheduler.cpp",), module="SchedTrace", info=lambda w: {"kind": w[0], "threads": int(w[3])}, args=(), race=lambda p: True, more=()):
    b = vf.build(harness, [harness + ".cpp", "vsched.cpp"], list(srcs), ["-O1"], extra_link=["-rdynamic"])
    ctx.log("built")
    out, recs, bad = judge(ctx, b, progs, dict(enumerate(progs)), module, info, args)
    if bad:
        # schedules are deterministic: what was seen has to be seen again
        again = {k * len(progs) + i: progs[i] for i in list(bad)[:12] for k in range(1, 4)}
        _, _, bad2 = judge(ctx, b, progs, again, module, info, args)
        sure = {i % len(progs) for i in bad2}
        for i in [x for x in bad if x in sure][:20]: ctx.violation("%s: %s" % (" ".join(x if len(x) < 120 else x[:60] + ".." for x in progs[i].split()), bad[i]), {"case": progs[i], "recorded": out[i]})
        if not sure: ctx.log("not reproducible:", list(bad.values())[:2])
    ctx.log(len(recs), "decided,", len(bad), "rejected")
    ctx.extra_cov["schedules_run"] = len(progs); ctx.extra_cov["distinct_histories"] = len(recs)
    for p in progs[:: max(1, len(progs) // 5)]: ctx.sample(p[-200:])
    if race: races(ctx, [p for p in progs if race(p)], harness, srcs, args, more)

def races(ctx, progs, harness, srcs, args, more=(), name=None, flags=()):
    """the specification's steps are atomic: two accesses of the same memory by two threads, one of them a write, which
    nothing orders (harness/vrace.hpp) are not one step of anybody, whatever the recorded history made of them"""
    if not ctx.thorough: progs = progs[:: max(1, len(progs) // 900)]
    progs = progs + list(more)
    b = vf.build(name or harness + "_race", [harness + ".cpp", "vsched.cpp"], list(srcs), list(flags) + ["-O1", "-DVS_RACE", "-fsanitize=thread", "-fno-optimize-sibling-calls"], extra_link=["-rdynamic"])
    def go(todo):
        out = vf.run_batch(b, [(i, "%d %s\n" % (i, p)) for i, p in todo.items()], args=args)
        return {i: [e["at"] for e in o.get("log", []) if e["e"] == "race"] for i, o in out.items()}
    got = go(dict(enumerate(progs)))
    where = symbols(b, {a for x in got.values() for a in x})
    def name(side):             # the first place in the repository, None when the harness came first
        for p in side.split(",")[1:]:
            for f, l in where.get(p, []):
                if l.startswith(vf.REPO + "/"): return "%s of %s in %s" % ("write" if side[0] == "W" else "read", l[len(vf.REPO) + 1:].split(" ")[0], f)
                if l.startswith(vf.VERIF + "/harness"): return None
    def pair(at):               # left alone: what happens inside the sockets of boost::asio, and what the harness does
        a, c = at.split(" ")
        if any((where.get(x.split(",")[1]) or [("", "")])[0][1].startswith("/usr/include/boost/asio/") for x in (a, c)): return None
        n = [name(a), name(c)]
        return tuple(sorted(x or "use by the caller" for x in n)) if any(n) else None
    found = {}
    for i, ats in got.items():
        for at in ats:
            k = pair(at)
            if k: found.setdefault(k, i)
    if found:
        n = len(progs); again = go({n + j * n + i: progs[i] for i in list(set(found.values()))[:12] for j in range(3)})
        where = symbols(b, {a for x in again.values() for a in x} | {a for x in got.values() for a in x})
        sure = {pair(at) for x in again.values() for at in x}
        for k, i in list(found.items())[:12]:
            if k in sure: ctx.violation("%s: nothing orders two accesses of the same memory: %s / %s" % (progs[i], k[0], k[1]), {"case": progs[i], "race": k})
    ctx.log("accesses compared in", len(progs), "schedules:", len(found), "unordered pairs")
    ctx.extra_cov["schedules_checked_for_races"] = len(progs)

def symbols(b, ats):
    pcs = sorted({p for a in ats for x in a.split() for p in x.split(",")[1:] if p != "0"})
    S = {}
    if not pcs: return S
    r = subprocess.run(["addr2line", "-a", "-C", "-f", "-i", "-e", b] + ["0x%x" % (int(p, 16) - 1) for p in pcs], stdout=subprocess.PIPE, text=True).stdout
    for part in re.split(r"^0x", r, flags=re.M)[1:]:
        ls = part.split("\n"); S["%x" % (int(ls[0], 16) + 1)] = [(ls[i][:100], os.path.normpath(ls[i + 1])) for i in range(1, len(ls) - 1, 2)]
    return S

def judge(ctx, b, progs, todo, module, info, args):
    out = vf.run_batch(b, [(i, "%d %s\n" % (i, p)) for i, p in todo.items()], args=args)
    recs, seen, bad = [], set(), {}
    for i, p in todo.items():
        o = out[i]
        if "crash" in o: raise vf.CheckError("harness died: %s" % o["crash"][-500:])
        if o["end"] != "done":
            bad[i] = "the threads did not come to rest: %s; last events: %s" % (o["end"], " ".join(fmt(e) for e in o["log"][-30:])); continue
        r = {"id": i, "log": o["log"]}; r.update(info(p.split()))
        key = json.dumps(canon(r))
        if key in seen: continue
        seen.add(key); recs.append(r)
    ctx.log("ran", len(todo), "distinct histories", len(recs), "steps", sum(o.get("steps", 0) for o in out.values()))
    bad.update(follow(ctx, module, recs))
    return out, recs, bad

def canon(r): return [{k: v for k, v in r.items() if k not in ("id", "log")}, [{k: v for k, v in e.items() if k != "t"} for e in r["log"]]]

def program(R, jobs, life):
    """phases of thread programs; jobs, life: how much of each"""
    left = [0]
    def body(handoff=False):
        b = "".join(R.choice(["", "y", "y", "p", "q"]) for _ in range(R.randrange(0, 3)))
        if handoff: b += "r" + R.choice(["", "y", "p"])
        if R.random() < .25: b += R.choice("ei")
        return b
    def thread(life_only=False):
        ops = []; own = 0
        for _ in range(R.randrange(1, 6)):
            k = R.random()
            if own and k < jobs: ops.append(R.choice("PPV") + body()); continue
            if own and R.random() < .15: ops.append("P" + body(True)); own -= 1; continue
            k = R.random()
            if own and k < .35: ops.append("R"); own -= 1
            elif k < .35 + .25 * (1 if jobs else .6): ops.append("A"); own += 1
            elif k < .62 and life: ops.append("S")
            elif k < .74 and life: ops.append("D") if not own else ops.append("Q")
            elif k < .84 and life: ops.append("J") if not own else ops.append("R") or None
            elif k < .92: ops.append("Q")
            elif life and R.random() < .5: ops.append("N%d" % R.randrange(1, 4))
            else: ops.append("A"); own += 1
        # recount (the branches above may have removed a user twice)
        own = 0; res = []
        for o in ops:
            if o == "A": own += 1
            elif o == "R" or (o[0] == "P" and "r" in o):
                if own == 0: continue
                own -= 1
            elif o[0] in "PV" and own == 0: continue
            elif o in ("D", "J") and own: continue
            elif o[0] == "N" and not own: continue      # setting the number while another thread may be starting is not covered
            res.append(o)
        if own and R.random() < .6: res += ["R"] * own; own = 0
        left[0] += own
        return ",".join(res) or "Q"
    ph = []
    for _ in range(R.randrange(1, 3)):
        ph.append("/".join(thread() for _ in range(R.randrange(1, 4))))
        if R.random() < .2: ph.append("T")
        if R.random() < .1: ph.append("N%d" % R.randrange(1, 4))
        if R.random() < .5:
            if left[0]: ph.append(",".join(["R"] * left[0])); left[0] = 0
    if left[0]: ph.append("/".join(["R"] * left[0]) if R.random() < .5 else ",".join(["R"] * left[0]))
    ph.append(R.choice(["D", "D/J", "D/D", "J/D/J", "D,D"]))
    if R.random() < .3: ph += ["A,P,V,R", "D"]
    return " ".join(ph)

FIXED19 = ["A,P,Pe,Pi,Pyp,R/A,P,Pe,P,R D", "A,V,V,V,V,V,R/A,V,V,V,R D", "A,Pe,Pe,Pe,Pe,P,P,R D", "A,Pppp/A,Pqqq R,R D", "A,P,N3,V,V,V,V,V,R D", "A,P,N1,V,V,V,V,R D", "N1 A T P,P,Pe T P,R D".replace("P,P,Pe", "A,P,P,Pe,R").replace("P,R D", "A,P,R R D"),
           "A,Py,Py,Py,Py,Py,R D", "A,Pr D", "A,Pr/D D", "A,Ppr/D D", "A,Pr/A,Pr/D D", "A,V,Vp,R D A,V,V,R D", "A,P,R D T A,P,P,R T A,P,R D", "A,Pyr,Q/A,Pyr,Q/D D", "N3 A,V,V,V,R N1 A,V,V,V,R N2 A,V,V,V,R D", "N3 V N1 S A,V,N3,V,V,V,R D".replace("N3 V N1", "N3 Q N1")]
FIXED20 = ["S/D D", "S/S/D/D D", "A,R/D D", "A,R/A,R/D D", "A,R/S,D D", "S J/D D", "S J/J/D/D D", "A D/J R D", "A/A D/D/J R/R D", "S,D,S,D D", "A,R,D/A,R,D D", "S D,S/J D", "J D", "D/J/Q D", "S,Q,D,Q", "A,R/A,R/D/D/J D", "S J D S D", "A D R S J D", "A/A D/J R R D", "A D/D/D R D", "S T D S T D", "A,P,R D A,P,R D T A,P,R D", "S,D/S,D/J D", "A,R,A,R/D,D,S D", "N1 S/D N3 S D"]

def no_set(p): return "N" not in p           # set_num_threads and get_io_service are not for use at once

def P19(ctx):
    big = ctx.thorough; R = ctx.rng
    model(ctx, big)
    progs = []
    def add(p, k):
        for _ in range(k):
            progs.append("%s %d %d %d %d %s" % (R.choice("SO"), R.randrange(1, 10**6), R.randrange(2), R.randrange(1, 4), R.choice([0, 0, 50]), p))
    for p in FIXED19: add(p, 600 if big else 90)
    for _ in range(40000 if big else 2500): add(program(R, .7, .3 if R.random() < .5 else 0), 1)
    execute(ctx, progs, race=no_set)

def P20(ctx):
    big = ctx.thorough; R = ctx.rng
    model(ctx, big, ("hold", "late", "mute"))
    progs = []
    def add(p, k):
        for _ in range(k):
            progs.append("%s %d %d %d %d %s" % (R.choice("SO"), R.randrange(1, 10**6), R.randrange(2), R.randrange(1, 4), R.choice([0, 0, 30]), p))
    for p in FIXED20: add(p, 600 if big else 80)
    for _ in range(40000 if big else 2500): add(program(R, R.choice([0, .2]), 1), 1)
    execute(ctx, progs, race=no_set)

def model(ctx, big, designs=()):
    def cfg(d, callers, calls, num, jobs): return "SPECIFICATION Spec\nCONSTANTS Callers = {%s}\n Calls = %d\n Num = %d\n MaxJobs = %d\n Design = \"%s\"\nINVARIANT Safe Rest\nPROPERTY Refines Settles Ends\n" % (callers, calls, num, jobs, d)
    ctx.model("SchedulerMC", cfg("fixed", "1,2", 3, 1, 2), timeout=850, heap="12g")
    if big: ctx.model("SchedulerMC", cfg("fixed", "1,2,3", 2, 1, 1), timeout=850, heap="12g")
    if big: ctx.model("SchedulerMC", cfg("fixed", "1,2", 3, 2, 2), timeout=850, heap="12g")
    for d in designs: ctx.defect("SchedulerMC", cfg(d, "1,2", 3, 1, 2), timeout=300)

def P21(ctx):
    big = ctx.thorough; R = ctx.rng
    def cfg(d, n, k): return "SPECIFICATION Spec\nCONSTANTS Threads = {%s}\n Signals = %d\n Design = \"%s\"\nINVARIANT Rest OnlyIf\nPROPERTY Settles\n" % (",".join(str(x + 1) for x in range(n)), k, d)
    ctx.model("ProcessMC", cfg("flag", 4 if big else 3, 3 if big else 2), timeout=850)
    for d in ("lock", "once"): ctx.defect("ProcessMC", cfg(d, 2, 1))
    progs = []
    def add(p, k):
        for _ in range(k): progs.append("%d %d %d %s" % (R.randrange(1, 10**6), R.randrange(2), R.choice([0, 0, 20]), p))
    def sub(p):                 # # stands for a random step
        while "#" in p: p = p.replace("#", str(R.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])), 1)
        return p
    for p in ("0 W/X", "0 W/W/X/X", "0 X W", "0 W X W", "0 W/W/W X", "0 WX/XW", "0 XX/W/W X", "1 W t", "1 W/W t W", "1 W/W n t W/W", "1 t/ W".replace("t/ ", "yy t "), "1 W W/W X t", "0 I/W/X", "0 W", "0 W W W", "1 W/W/W/W n"):
        add(p, 200 if big else 25)
    for p in ("1 W/T#yyyyyy W", "1 W/W/T#yy/X W/W", "1 W/T#X/W", "1 T#W/W N#X/W", "1 XT#/W/W", "1 T#N#yW/yyX/W W", "1 N#T#yyyyyyyyyyyy/W/W/X W t W", "0 IT#W/W W".replace("IT", "IT"), "1 T#X/T#X/W/W W"):
        for _ in range(1500 if big else 150): add(sub(p), 1)
    for _ in range(10000 if big else 1000):
        ph = []
        for _ in range(R.randrange(1, 4)):
            k = R.random()
            if k < .2: ph.append(R.choice("tn"))
            else: ph.append("/".join("".join(R.choice(["W", "W", "X", "y", "T#", "N#"] if R.random() < .5 else ["W", "y"]) for _ in range(R.randrange(1, 4))) for _ in range(R.randrange(1, 5))))
        if ph[0] in "tn": ph.insert(0, "W")
        add("1 " + sub(" ".join(ph)), 1)
    execute(ctx, progs, "h_proc", ["src/process.cpp"], "ProcessTrace", lambda w: {})

def P22(ctx):
    big = ctx.thorough; R = ctx.rng
    ctx.model("AdminMC", "SPECIFICATION Spec\nCONSTANTS Threads = {1, 2%s}\n Uses = 2\nINVARIANT OneHolder GivenBack Active Rest\n" % (", 3" if big else ""), timeout=850)
    ids = [0, 1, 2, 99, 1000, 32767, 32768, 40000, 65534, 65535, 65536, 65537, 100000, 2147483647, 2147483648, 3000000000, 4294967294]
    def creds(r, e, s, g=(0, 0, 0)): return ",".join(map(str, (r, e, s) + tuple(g)))
    tabs, progs = {}, []
    def lines(t): return [x for x in t.split("\n")][:-1] if t.endswith("\n") else t.split("\n") if t else []
    def add(c, pw, gr, ph): progs.append("%d %d %s %s %s %s" % (R.randrange(1, 10**6), R.randrange(2), c, vf.runs_text(pw.encode("latin-1")), vf.runs_text(gr.encode("latin-1")), ph))
    PW = "root:x:0:0:root:/root:/bin/sh\ndaemon:x:1:1::/:/bin/false\nbob:x:1000:1000:Bob:/home/bob:/bin/sh\nbig:x:3000000000:5::/:\nmid:x:40000:7::/:\nnopw::1234:99:No:/:\nshort:x\nbad:x:12a:3::/:\nhuge:x:99999999999:3::/:\nbob:x:2000:1::/:\nbobby:x:1001:1::/:\nroo:x:77:77:a:b:c\nlast:x:4242:1::/:"
    GR = "root:x:0:\nstaff:x:50:bob,al\nopen::60:bob\nwheel:*:4294967294:\nempty:x::\n"
    seqs = ["M1,E,K1,E", "M1,E,L1,E,K1,E", "M1,L1,L1,E,K1,E", "M1,K1,M2,E,L2,E,K2,E", "M1,L1,M2,E,K1,E,K2,E", "M1n,E,L1,E,M2n,E,K2,E,K1,E"]
    for a in ids:
        for q in seqs:
            for c in ((a, a, a), (0, a, 0), (0, a, a), (a, a, 0), (a, 0, a), (a, 0, 0), (0, 0, a)): add(creds(*c), PW, GR, q)
    for a, b in itertools.product(ids, ids):
        if big or R.random() < .3: add(creds(a, b, R.choice([0, 0, 5, a, b])), PW, GR, R.choice(seqs))
    conc = ["M1,E,K1/M2,E,K2", "M1,E,L1,E,K1/M2,L2,M3,E,K3,K2", "M1,K1/M2,K2/M3,E,K3", "M1,E,E,L1,E,K1/M2,E,K2/M3,E,L3,E", "M1,K1,M2,K2,M3,K3/M4,L4,L4,M5,E,K5,K4", "M1,E,K1,E/M2n,E,K2,E/E,E,E", "M1,L1,M4,K4,K1/M2,E,K2/M3,L3,K3"]
    for q in conc:
        for _ in range(400 if big else 60):
            a = R.choice(ids); add(creds(*R.choice([(a, a, a), (0, a, 0), (a, a, 0), (0, a, a)])), PW, GR, q)
    names = ["root", "bob", "big", "mid", "nopw", "short", "bad", "huge", "bobby", "roo", "last", "nobody", "", "0", "1", "007", "1000", "40000", "2147483648", "4294967294", "4294967295", "4294967296", "99999999999999999999", "-1", "+5", "12a", " bob", "bob ", "x", "b", "daemon", "root:x", ":", "Bob", "BOB", "1000 ", "0x10"]
    gnames = ["root", "staff", "open", "wheel", "empty", "none", "50", "60", "4294967294", "", "bob", "x", "60:", "*"]
    def op(n, k): return k + vf.runs_text(n.encode("latin-1")).replace(",", ";")
    for n in names:
        for c in ((0, 0, 0), (1000, 1000, 1000), (0, 1000, 0), (5, 6, 3000000000), (40000, 0, 7)): add(creds(*c), PW, GR, op(n, "U") + ",E," + op(n, "G") + ",E")
    for n in gnames:
        for c in ((0, 0, 0, (0, 0, 0)), (1000, 1000, 1000, (50, 60, 70)), (5, 6, 7, (60, 1, 2))): add(creds(*c), PW, GR, op(n, "G") + ",E," + op(n, "U") + ",E")
    def table():
        out = []
        for _ in range(R.randrange(0, 7)):
            out.append(":".join(R.choice(["", "x", "*", "a", "ab", "b", "c", "1", "20", "007", "40000", "2147483648", "4294967294", "4294967295", "5000000000", "1x", " 3"]) for _ in range(R.randrange(1, 6))))
        t = "\n".join(x for x in out if not x.startswith(":"))
        return t + ("\n" if t and R.random() < .8 else "")
    for _ in range(6000 if big else 700):
        pw, gr = table(), table()
        def one():
            k = R.random()
            return op(R.choice(["a", "ab", "b", "c", "x", "*", "1", "20", "z", "", "40000", "5000000000"]), R.choice("UG")) if k < .6 else "E"
        live = False; q = []; o = 0
        for _ in range(R.randrange(2, 8)):
            if R.random() < .35:
                if live: q.append(R.choice(["K%d", "L%d"]) % o); live = False if q[-1][0] == "K" or True else live
                else: o += 1; q.append("M%d" % o); live = True
            else: q.append(one())
        add(creds(*(R.choice([0, 0, 1, 20, 40000]) for _ in range(3)), (R.choice([0, 1, 20]), R.choice([0, 1]), 20)), pw, gr, ",".join(q))
    def table_of(word): return [list(x.encode("latin-1")) for x in lines(vf.unrle([tuple(map(int, y.split(":"))) for y in word.split(",")]).decode("latin-1") if word != "-" else "")]
    def info(w): return {"ids": [list(x.encode()) for x in w[2].split(",")], "passwd": table_of(w[3]), "group": table_of(w[4])}
    execute(ctx, progs, "h_admin", ["src/admin_rights.cpp"], "AdminTrace", info, [vf.scratch()])

OPS = {"reg": ["a%d", "a%d", "l%d", "l%d", "r%d", "p%d", "k%d", "g%d", "L%d", "f%d", "e", "u", "s", "c"], "kept": ["a%d", "l%d", "x%d", "t%d", "g%d", "f%d", "u", "s", "L%d"],
       "user": ["a%d%d", "a%d%d", "h%d%d", "v%d%d", "w%d%d", "r%d", "g%d", "m%d%d", "m%d%d", "e"], "plug": ["o%d%d", "o%d%d", "f%d%d", "c%d", "y%d%d", "n%d", "d", "R", "s00", "s01", "i0%d", "l"]}
def shared(ctx, kinds, srcs, args=()):
    """the same objects used by several threads, looked at for accesses that nothing orders"""
    R = ctx.rng; progs = []
    for kind in kinds:
        for _ in range(3000 if ctx.thorough else 250):
            def op():
                o = R.choice(OPS[kind]); return o % tuple(R.randrange(3) for _ in range(o.count("%")))
            ph = ["/".join(",".join(op() for _ in range(R.randrange(1, 5))) for _ in range(R.randrange(1 if i == 0 else 2, 4))) for i in range(R.randrange(1, 4))]
            if kind == "plug": ph = ["d,s00"] + ph
            progs.append("%d %d %s %s" % (R.randrange(1, 10**6), R.randrange(2), "reg" if kind == "kept" else kind, " ".join(ph)))
    races(ctx, progs, "h_race", srcs, args)
