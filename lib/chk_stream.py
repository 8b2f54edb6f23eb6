"""P32: tcp::stream under a controlled thread scheduler (spec/TcpStream.tla, StreamTrace.tla, StreamMC.tla)."""
from chk_sched import execute
SRC = ["src/" + f for f in "logger.cpp algorithm.cpp".split()]
SIZES = [1, 2, 9, 10, 11, 100, 250, 251, 8181, 8182, 8183, 8190, 8191, 8192, 8193, 16363, 16364, 16383, 16384, 16385, 30000]
def fixed():
    out = []
    for n in SIZES:
        out += ["w%d,f/r%d" % (n, n), "W%d,c,c,f/r%d" % (n, n + 2), "c,w%d,c,Z/r%d" % (n, n + 5), "r%d/w%d" % (n, n), "r%d,g/w%d,e" % (n, n), "r%d,u,r1,u,u,g,g,p/w%d,w5" % (n, n), "r%d,p,u,u,u,r20/w%d,e" % (n, n), "r%d,r1,u,u,u,u,u,u,u,u,u,u,u,r11,g/w%d,w1 ,/e" % (n, n),
                "w8191,c,f/r8192", "w8190,w%d,f/r%d" % (n, 8190 + n), "w5,w%d,w%d,f/r%d" % (n, n, 5 + 2 * n), "r%d,s%d,s10,r3/w%d,w3" % (max(1, n - 5), n, n)]
    out += ["g,g,g/w1,w1,w1", "g//k r5,g/w6/k", "p,p,g,u,p,g,a,g/w2,e", "r3,g,g,u,u,u,u,g,g,g,g/w2,w1,e", "w3,f,r4,w4,f,r1/r3,w4,r4,w1", "w9000,r10,w10,f/r9000,w10,r10", "x r1 Z/e,r1", "x,w3,f,f,Z", "x,c,f,c,f", "w3,f,x,w1,f,w9000,f,Z/r3", "x,w8191,f", "x,w8192,f", "x,W3,f", "w3,x,Z/r1", "w3,f,x,Z/r4", "Z/r1", "r5/w3,x", "r5,w100,f,w10,f,r1,c,f/w3,x", "r2 Z/x", "w8192,c,c,f,w8191,c,c,f,W9000,f,w1,f/x,r1", "/x w9000,f,w8191,c,c,c,w20000,c,f,W8191,c,W8192,W10000,c,f,Z", "s5 s5,r5/w5", "r1 ,s3/w4 s9,u,u,s9"]
    out += ["/x " + ",".join(["w8191", "c"] * 6) + ",Z", "/x " + ",".join(["f"] * 3 + ["W8191", "c", "c"] * 5) + ",W3,Z", "/x w9000,f,f,f,f,Z", "/x w9000,f,f,Z", "/x w9000,f,r1,f,Z", "/x w9000,f,f,x,Z", "/w5,x " + ",".join(["c"] * 40) + ",w8150," + ",".join(["c"] * 12) + ",r5,g"]
    return out
SMALL = ["w30000,f/r30000", "w30000,f//k /r100000,Z", "w8000,f,w8000,f,w8000,f,w8000,f//k /r10 Z/r100000", "W20000,W20000,f/y,y,r100/k /r1000 Z/r100000", "w9000,w100,f,w9000,f//y,k /r5 w5,f Z/r100000", "w30000,Z//k /r100000", "w8191,c,c,w8191,c,f,f,f/r3/k,k,k /r100000 Z/r1", "w30000,f/y,x", "w20000,f/r9000,x w5,f,Z", "w8000,f,w8000,f,w8000,f,w8000,f,w8000,f/ /k,k,k,k Z/r100000", "w6000,f,w6000,f,w6000,f,x/ /y,k /r100000"]
def random(R):
    sz = lambda: R.choice(SIZES + [R.randrange(1, 40) for _ in range(12)])
    ph = []; insent = 0; w = 0; got = 0; fin = False; closed = False
    for _ in range(R.randrange(1, 5)):
        u, p, k = [], [], []
        for _ in range(R.randrange(1, 8)):
            x = R.random()
            if x < .3: u.append("r%d" % sz())
            elif x < .42: u.append("g")
            elif x < .47: u.append("p")
            elif x < .6: u += ["u"] * R.choice([1, 1, 2, 5, 11])
            elif x < .62: u.append("a")
            elif x < .66: u.append("s%d" % sz())
            elif x < .8: n = sz(); u.append(R.choice("wwW") + "%d" % n); w += n
            elif x < .88: u += ["c"] * R.choice([1, 2, 9]); w += u.count("c") and 0
            elif x < .96: u.append("f")
            else: u.append("y")
        for _ in range(R.randrange(0, 6)):
            x = R.random()
            if x < .6: p.append("w%d" % sz())
            elif x < .8: p.append("r%d" % sz())
            elif x < .9: p.append("y")
            elif x < .95: p.append("e")
            elif x < .97: p.append("x")
        if R.random() < .25: k = [R.choice("ky") for _ in range(R.randrange(1, 4))]
        ph.append(",".join(u) + "/" + ",".join(p) + "/" + ",".join(k))
    ph.append("/" + R.choice(["e", "x", "w50000,e", "w50000,e"])); ph.append(R.choice(["Z/r2000000", "x,Z/r2000000", "f,Z/r2000000", "r100000,u,u,u,u,r9,Z/r2000000"]))
    return " ".join(ph)
def P32(ctx):
    big = ctx.thorough; R = ctx.rng
    def cfg(d): return "SPECIFICATION Spec\nCONSTANTS Size = %d\n Back = 2\n Total = %d\n Design = \"%s\"\nINVARIANT InOrder Kept Inside NoneLost\n" % (6 if big else 5, 8 if big else 6, d)
    ctx.model("StreamMC", cfg("sound"), timeout=850)
    for d in ("spurious", "clobber", "nokeep", "grow"): ctx.defect("StreamMC", cfg(d))
    progs = []
    def add(p, n, small=0):
        for _ in range(n): progs.append("%d %d %d %s" % (R.randrange(1, 10**6), R.randrange(2) + 2 * small, R.choice([0, 0, 15, 60]), p))
    for p in fixed(): add(p, 8 if big else 2)
    for _ in range(6000 if big else 500): add(random(R), 1)
    for p in SMALL: add(p, 40 if big else 5, 1)
    for _ in range(1200 if big else 60): add(random(R), 1, 1)
    execute(ctx, progs, "h_stream", SRC, "StreamTrace", lambda w: {"small": int(w[1]) >= 2})
