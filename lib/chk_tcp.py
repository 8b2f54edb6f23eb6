"""P26: the TCP server under a controlled thread scheduler (spec/TcpServer.tla, TcpTrace.tla, TcpServerMC.tla)."""
import vf
from chk_sched import execute
SRC = ["src/" + f for f in "tcp_server.cpp tcp_timer.cpp scheduler.cpp logger.cpp admin_rights.cpp algorithm.cpp".split()]
FIXED = ["S C1f,Q Q T", "S C1kkf/C2kf/C3f Q W", "S C1d/C2r C3o T/F1/J Q S C4r,L D4 W", "S,C1o,Q C2r Q C3f Q T", "S C1r,T", "S C1r/T", "S C1r/W D1", "S C1r/C2r/T/J/Q", "S C1f/W/J L", "S/S/Q T/T", "S C1d F1/T", "S C1d K1/T", "S C1dd K1/W F1",
         "S C1r,w1,w1 D1/T", "S C1r,w1/C2r,w2/T/Q", "S T S T S C1f W", "S W,B S U S C1f,Q T", "S,T,B,S,S,U,S C1f T", "S C1f/C2f/C3f/C4f/Q/Q/T", "S C1d/C2d/C3d F1/F2/K3/Q F3 T", "J S J/J/T", "S C1r/C2d/C3r Z/F2", "S C1r/C2kr/C3r Z", "S C1o/C2o/C3o Q W", "S C1o/T", "S C1kkkf/T/Q", "S C1kkkr/T/Q", "Q L T W J S/Q/Q T", "S,C1r,C2r,C3r,T", "S,C1f,C2f,C3f,W", "S C1d T/C2f/C3r F1 S C4f,L T",
         "S C1r D1 C2r D2/T", "S/C1f/Q T", "S/C1r/C2r T", "S C1d D1 Q F1 Q T", "S C1r/w1/D1/T", "S C1ko/T", "S C1d T K1", "S C1d/C2d W/F1/F2/Q", "S C1c W E", "S C1c/C2kc/T/Q E", "S C1r T E", "S C1d W F1 E", "S T S T E", "S Z E", "S W,B S U S T E", "S C1c Q C2c Q L E T"]
def random(R):
    ph = ["S" if R.random() < .8 else "S/S/Q"]; k = 0; stopped = False
    for _ in range(R.randrange(1, 4)):
        th = []
        for _ in range(R.randrange(1, 5)):
            ops = []
            for _ in range(R.randrange(1, 4)):
                x = R.random()
                if x < .45 and k < 8:
                    k += 1; ops.append("C%d%s" % (k, R.choice(["f", "kf", "kkf", "r", "r", "kr", "d", "dd", "kd", "o", "ko", "rr", "c", "kc"])))
                    if R.random() < .3: ops.append("w%d" % k)
                    if R.random() < .2: ops.append("D%d" % k)
                elif x < .55: ops.append(R.choice("QL"))
                elif x < .65 and k: ops.append("w%d" % R.randrange(1, k + 1))
                elif x < .75 and k: ops.append("D%d" % R.randrange(1, k + 1))
                elif x < .92 and k: ops.append(R.choice("FFK") + "%d" % R.randrange(1, k + 1))
                else: ops.append("Q")
            th.append(",".join(ops))
        if R.random() < .3: th.append("J")
        stop = R.random() < .5
        if stop: th.append(R.choice("TTW")); 
        if stop and R.random() < .15: th.append(R.choice("TW"))
        R.shuffle(th); ph.append("/".join(th))
        if stop:
            ph.append(",".join("F%d,D%d" % (j, j) for j in range(1, k + 1)) or "Q")
            if R.random() < .5: ph.append(R.choice(["S", "S", "B S U S", "S/S"]).replace(" ", ",") if R.random() < .8 else "Q,J")
    ph.append("/".join([R.choice("TTZ")] + ([",".join("F%d" % j for j in range(1, k + 1))] if k else [])))
    if R.random() < .4: ph.append("E")
    return " ".join(ph)
def P26(ctx):
    big = ctx.thorough; R = ctx.rng
    def cfg(d, c="1,2,3,4", r=2, w="1,2"): return "SPECIFICATION Spec\nCONSTANTS Workers = {%s}\n Conns = {%s}\n Clients = 3\n Rounds = %d\n Keeps = 1\n Design = \"%s\"\nINVARIANT NoneLeft Pooled Closed Ends Serves Counts\n" % (w, c, r, d)
    ctx.model("TcpServerMC", cfg("checked"), timeout=850, heap="8g")
    if big: ctx.model("TcpServerMC", cfg("checked", "1,2,3,4,5", 2, "1,2,3"), timeout=850, heap="16g")
    for d in ("late", "locked", "unpooled", "blind"): ctx.defect("TcpServerMC", cfg(d))
    progs = []
    def add(p, n):
        for _ in range(n): progs.append("%d %d %d %d %s" % (R.randrange(1, 10**6), R.randrange(2), R.choice([0, 0, 40]), R.choice([1, 2, 2, 3]), p))
    for p in FIXED: add(p, 200 if big else 14)
    for _ in range(7000 if big else 560): add(random(R), 1)
    execute(ctx, progs, "h_tcp", SRC, "TcpTrace", lambda w: {})
