"""P37: an HTTP server used by several threads under a controlled thread scheduler (spec/SharedServer.tla, SharedTrace.tla, SharedMC.tla)."""
import os
import vf
import chk_srv as H
import chk_sched as S
from chk_sched import execute
SRC = H.SRC
FSRC = SRC + ["src/http_plugin_server.cpp", "src/plugin.cpp", "services/FileService.cpp"]
FIXED = [
    # auth, phases
    "none A1n,A2n q02/q12/X2", "none A1n,A2n q03/q13/X2,A2n/q22", "none A1x q01/q11/q21", "none A1r,A0n q01/q11/q21,q21", "none A1x,A0n q02,q02/q12/A2n", "none A1p,A5p q01,q05/q11,q15/X1,X5 q01/q11",
    "none A1n,A5n,R81 q08/q18/R98/q29", "none R89,R98 q08/q19/A8n", "none A1t,A5n q01,q05/q11,q15/X1", "none A0n q04/q13/A1n/A4n/X0", "none A1n X1,A1n/q01,q01/q11,q11", "none A1n,A2n,A5n X1,X2/X2,X1/X1,X2 q01/q12/q25", "none A1n,A2n X1/X1/A1n/q01/q12 q01,q02", "none A1n,A1p,X1 q01/A1n/q11 q01",
    "cookie A1n,Y0,U11 q06b11,q01s,q07s,q01s/q16b11,q11s/q26b12", "cookie A1n,Y1,U11,U22 q06b11/q16b22/q26b11 q01s/q11t0/q21s/q37t0 q01s/q11s/q21s", "cookie A1n,Y1,U11 q06b11 q01s/q11t0/q27t0/q31t0 q01s", "cookie A1n,A5n,Y0,P5,U11 q01-/q25-/N1/q16b11 q11s/q05-",
    "cookie A1n,Y1 q01-/U11/q11-/q26b11 q21s/q01-", "cookie A1x,Y1,U11 q06b11 q01s/q11t0/q21t0", "cookie A1n,Y1,U11,R86 q08b11/q18b11/q26b11/q36b11 q01s/q11s/q21s/q31s", "cookie A1n,U11,Y1 q06b11/q16b11/q26b11/q36b11/q46b11 q07s/q17s/q51t2,q21s/q31s/q41t3",
    "basic A1n,Y1,U11 q01b11/q11b12/V12/q21b12", "basic A1n,Y1,U11 q01b11/N1/q11b11,q11b11/q21-", "basic A1n,A5n,U11 q01b11/Y1/q11-/P2/q22-", "basic A1n,Y0,U11,U22 q01b11/q11b22/q21b21/N1/U13 q01b11/q11b13", "basic A1n,A2n,Y1,U11 q02-/P2/q12-/X2/q22b11", "basic Y1,U11,R81 q08b11/q18-/A1n/N1",
]
RACED = [   # only looked at for accesses that nothing orders: time passes (t), all at once
    "cookie A1n,Y1,U11 q06b11 q01s/q11t0/q21t0/q31t0 q01s/q11t0/q21t0", "cookie A1n,Y1,U11 q06b11/q16b11 q01s,t3/q11s/q21t0/q31t1 q01s/q11t0/q21t0", "cookie A1n,Y1,U11 q06b11/q16b11/q26b11 q07s/q11s,q11t0/q21t0/q37t2 q01s/q11t0/q26b11,q21s",
    "none A1n,R81 q08,q08/q18,q01/R98,R89/q28,q29", "none A1n q01,q02/q11,q18/R31,R81/q22,q23", "cookie A1n,Y1,U11 q06b11/q16b11/q26b11/q36b11 q07s,q01s/q11s,q17s/q21s,q27s/q37s",
    "cookie A1n,Y1,U11 q06b11 t3 q01s/q11t0/q26b11,q21s t3 q01s,q01s/q11t2/q26b11", "basic A1n,Y1,U11 q01b11,q01b11/q11b12/V12/V13/q21b12", "basic A1n,Y1,U11,U22 q01b11/V12,V11/N1,U11/q11b22/V23/q21b11", "none A1n,A2n q01,q01/q11,q12/C/A3n,A4n/R81",
]
RES = "0122345589ab"
def random(R):
    auth = R.choice(["none", "basic", "cookie", "cookie"]); k = 0
    def adm(setup=False):
        x = R.choice("12345589" if not setup else "0123458"); y = R.random()
        if y < (.5 if setup else .3): return "A%s%s" % (x, R.choice("nnnpxrt"))
        if y < .5 and not setup: return "X" + x
        if y < .6: return "R%s%s" % (R.choice("589234"), R.choice("012345689"))
        if auth == "none": return "A%sn" % x
        if y < .72: return "U%s%s" % (R.choice("12"), R.choice("12"))
        if y < .78: return "V%s%s" % (R.choice("12"), R.choice("12"))
        if y < .83 and not setup: return "N" + R.choice("12")
        return ("Y" if y < .93 else "P") + R.choice("012")
    def req(c):
        if auth == "cookie":
            y = R.random()
            if y < .3: return "q%d6b%s%s" % (c, R.choice("112"), R.choice("112"))
            if y < .42: return "q%d7%s" % (c, R.choice(["s", "s", "t%d" % R.randrange(4), "-"]))
            return "q%d%s%s" % (c, R.choice(RES), R.choice(["s", "s", "s", "t%d" % R.randrange(4), "-"]))
        return "q%d%s%s" % (c, R.choice(RES), "b%s%s" % (R.choice("112"), R.choice("112")) if auth == "basic" and R.random() < .8 else "-")
    ph = [",".join(adm(True) for _ in range(R.randrange(1, 5)))]
    if auth != "none": ph[0] += ",Y" + R.choice("012") + ",U11"
    for _ in range(R.randrange(1, 4)):
        th = [",".join(req(c) for _ in range(R.choice([1, 1, 2, 3]))) for c in range(R.randrange(1, 5))]
        for _ in range(R.choice([0, 1, 1, 2])): th.append(",".join(adm() for _ in range(R.choice([1, 1, 2]))))
        R.shuffle(th); ph.append("/".join(th))
    return "%s %s" % (auth, " ".join(ph))
def P37(ctx):
    big = ctx.thorough; R = ctx.rng; progs = []
    def cfg(asks, most, pend, d): return "SPECIFICATION Spec\n" + H.CONST + " Most = %d\n Pend = %d\n Asks = {%s}\n Design = \"%s\"\nINVARIANT Present Absent Refused Entitled Guarded\nCHECK_DEADLOCK FALSE\n" % (most, pend, ",".join('"%s"' % a for a in asks), d)
    ALL = ("q", "login", "res", "lists"); L = ("q", "login", "lists")
    ctx.model("SharedMC", cfg(ALL, 5 if big else 4, 2, "sound"), timeout=850, heap="12g")
    ctx.model("SharedMC", cfg(("q", "res"), 5 if big else 4, 3, "sound"), timeout=850, heap="12g")
    ctx.model("SharedMC", cfg(L, 6 if big else 5, 2, "sound"), timeout=850, heap="12g")
    for d, a, m, p in (("cache", ("q", "res"), 5, 2), ("late", L, 7, 1), ("early", L, 5, 2), ("open", ("q", "lists"), 6, 2)): ctx.defect("SharedMC", cfg(a, m, p, d), timeout=850)
    def add(p, n):
        for _ in range(n): progs.append("%d %d %d %d %s" % (R.randrange(1, 10**6), R.randrange(2), R.choice([0, 0, 40]), R.choice([1, 2, 2, 3, 4]), p))
    for p in FIXED: add(p, 200 if big else 14)
    for _ in range(7000 if big else 500): add(random(R), 1)
    more = []
    for p in RACED:
        for _ in range(300 if big else 25): more.append("%d %d %d %d %s" % (R.randrange(1, 10**6), R.randrange(2), R.choice([0, 0, 40]), R.choice([2, 3, 4]), p))
    execute(ctx, progs, "h_mt", SRC, "SharedTrace", lambda w: {"auth": w[4]}, more=more)

def files(ctx):
    """P30: one file service used by several threads, looked at for accesses that nothing orders"""
    R = ctx.rng; progs = []
    for _ in range(3000 if ctx.thorough else 300):
        ph = ["f%s%s" % (R.choice("01222"), R.choice("0001123"))]
        for _ in range(R.randrange(1, 4)):
            th = [",".join("q%d%s-" % (c, R.choice("cccdde1a3")) for _ in range(R.choice([1, 2, 2, 3]))) for c in range(R.randrange(2, 5))]
            th += [",".join(R.choice(["W0", "W0", "W1", "W2", "t1", "E0"]) for _ in range(R.choice([1, 2]))) for _ in range(R.choice([0, 1, 1]))]
            if R.random() < .2: th.append(R.choice(["s,S", "s", "S"]))
            R.shuffle(th); ph.append("/".join(th))
        progs.append("%d %d 0 %d none %s" % (R.randrange(1, 10**6), R.randrange(2), R.choice([2, 3, 4]), " ".join(ph)))
    d = vf.scratch() + "/mtfiles"; os.makedirs(d, exist_ok=True)
    S.races(ctx, progs, "h_mt", FSRC, [d], name="h_mt_files_race", flags=["-DMT_FILES", "-I" + vf.REPO + "/services", "-include", "boost/filesystem/fstream.hpp"])
