"""P31: user credentials (spec/Users.tla)."""
import itertools, hashlib
import vf
import chk_sched as S
T = vf.runs_text
def st(op, n=b"", p=b""): return "%s;%s;%s" % (op, T(n), T(p))
def sha(p, k=256): return (hashlib.sha256(p) if k == 256 else hashlib.sha1(p)).hexdigest().encode()

def P31(ctx):
    big = ctx.thorough; R = ctx.rng
    ctx.model("UsersMC", "SPECIFICATION Spec\nCONSTANT MaxObjs = %d\nINVARIANT Exact Exists\nPROPERTY FailChangesNothing AddFails Malformed\n" % (4 if big else 2), timeout=850)
    ssl, plain = [], []
    def case(dst, kind, threads):
        pws = []
        for th in threads:
            for o, n, p in th:
                if p not in pws and o in ("add", "upd", "getp", "held", "hset"): pws.append(p)
        c = [kind, "|".join(T(p) for p in pws) or "."]
        for k, th in enumerate(threads):
            if k: c.append("/")
            c += [st(*x) for x in th]
        dst.append(c)
    # every short history over one or two users
    pa, pb = b"pw", b"PW"
    al = [("add", b"u", pa), ("add", b"u", pb), ("upd", b"u", pb), ("addh", b"u", sha(pa)), ("updh", b"u", sha(pa, 1)), ("updh", b"u", sha(pb).upper()), ("rem", b"u", b""), ("updh", b"u", b"zz"), ("add", b"U", pa)]
    probe = [("getp", b"u", pa), ("getp", b"u", pb), ("getp", b"U", pa), ("get", b"u", b""), ("empty", b"", b"")]
    for n in range(1, 6 if big else 4):
        for seq in itertools.product(al, repeat=n):
            if n >= 4 and R.random() > (.5 if n == 4 else .06): continue
            case(ssl, "hist", [list(seq) + probe])
    alp = [a for a in al if not a[0].endswith("h")]
    for n in range(1, 5):
        for seq in itertools.product(alp, repeat=n): case(plain, "hist", [list(seq) + probe])
    # passwords that differ little
    base = [b"", b"\x00", b"a", b"a\x00", b"a\x00b", b"a ", b" a", b"A", b"aa", b"\xff", b"a\n", b"p" * 63, b"p" * 64, b"p" * 65, b"p" * 1000, b"p" * 999 + b"q", sha(b"a"), sha(b"a", 1), b"%61", b"pass:word", b":"]
    for p in base:
        for q in base:
            for dst in (ssl, plain): case(dst, "hist", [[("add", b"u", p), ("getp", b"u", q), ("add", b"v", q), ("getp", b"u", q), ("getp", b"v", q), ("rem", b"v", b""), ("getp", b"u", p), ("upd", b"u", q), ("getp", b"u", p), ("getp", b"u", q)]])
            for d in (sha(p), sha(p, 1), sha(p).upper(), sha(p, 1).upper()):
                case(ssl, "hist", [[("addh", b"u", d), ("getp", b"u", q), ("getp", b"u", d), ("get", b"u", b""), ("upd", b"u", b"zzz"), ("getp", b"u", q), ("updh", b"u", d), ("getp", b"u", q), ("getp", b"u", b"zzz")]])
    # names that differ little
    for x in base[:14]:
        for y in base[:14]:
            case(ssl, "hist", [[("add", x, b"1"), ("add", y, b"2"), ("getp", x, b"1"), ("getp", y, b"2"), ("get", x, b""), ("get", y, b""), ("rem", y, b""), ("getp", x, b"1"), ("empty", b"", b""), ("rem", y, b""), ("rem", x, b""), ("empty", b"", b"")]])
    # digests: every length, every byte at several places, in either form, on an existing user
    d256, d1 = sha(b"good"), sha(b"good", 1)
    def bad(d): case(ssl, "hist", [[("add", b"u", b"old"), ("updh", b"u", d), ("getp", b"u", b"old"), ("getp", b"u", b"good"), ("get", b"u", b""), ("addh", b"v", d), ("get", b"v", b""), ("getp", b"v", b"good"), ("add", b"v", b"n"), ("getp", b"v", b"n")]])
    for n in range(0, 140): bad((d256 * 3)[:n])
    for d in (d256, d1):
        for pos in (0, 1, len(d) // 2, len(d) - 2, len(d) - 1):
            for b in range(256): bad(d[:pos] + bytes([b]) + d[pos + 1:])
        bad(b"0x" + d[2:]); bad(b" " * len(d)); bad(b"g" * len(d)); bad(b"-" + d[1:])
        for i in range(len(d)): bad(d[:i] + b"f0"[d[i] == ord("f"):][:1] + d[i + 1:])
    # random long histories, with objects that clients keep
    names = [b"u", b"v", b"U", b"", b"u\x00", b"w"]; pws = [b"", b"p", b"P", b"p\x00", b"long" * 40, b"p "]
    def rstep(hash_ok):
        o = R.choice(["add", "add", "upd", "rem", "get", "getp", "getp", "empty", "held", "hset"] + (["addh", "updh", "updh", "hseth"] if hash_ok else []))
        n, p = R.choice(names), R.choice(pws)
        if o in ("addh", "updh", "hseth"): p = R.choice([sha(p), sha(p, 1), sha(p).upper(), sha(p)[:-1], b"", sha(p)[:-1] + b"g", sha(b"unknown")])
        return (o, n, p)
    for i in range(20000 if big else 2500):
        case(ssl, "hist", [[rstep(True) for _ in range(R.randrange(5, 40))]])
        if i % 4 == 0: case(plain, "hist", [[rstep(False) for _ in range(R.randrange(5, 40))]])
    # concurrent clients
    for i in range(8000 if big else 1200):
        nt = R.choice([2, 2, 3])
        def cstep():
            o = R.choice(["add", "add", "upd", "rem", "getp", "getp", "updh"]); p = R.choice([b"1", b"2"])
            return (o, b"u", sha(p) if o == "updh" else p)
        case(ssl, "conc", [[cstep() for _ in range(R.randrange(1, 4))] for _ in range(nt)])
    run(ctx, ssl, vf.build("h_user", "h_user.cpp", [], ["-O1"] + vf.SAN))
    run(ctx, plain, vf.build("h_user_plain", "h_user.cpp", [], ["-O1", "-DVERIF_NO_SSL"] + vf.SAN))
    S.shared(ctx, ["user"], ["src/plugin.cpp"])

def run(ctx, cases, b):
    out = vf.run_batch(b, [(i, "%d %s\n" % (i, " ".join(c))) for i, c in enumerate(cases)])
    recs = []
    for i, c in enumerate(cases):
        if "crash" in out[i]: ctx.violation("%s: the code crashed, threw or hung: %s" % (" ".join(c)[:600], out[i]["crash"][-700:]), {"case": c})
        else: recs.append(out[i])
    ctx.log("ran", len(recs))
    rej, t = vf.validate("UsersTrace", "UsersTrace.cfg", recs, timeout=800)
    ctx.states += t.distinct; ctx.transitions += t.states; ctx.validated += len(recs)
    for i, why in sorted(rej.items()): ctx.violation("%s: not what the specification says: %s" % (" ".join(cases[i])[:900], why), {"case": cases[i], "recorded": out[i]})
    ctx.log(len(recs), "decided,", len(rej), "rejected")
    for c in cases[:: max(1, len(cases) // 3)]: ctx.sample(" ".join(c))
