"""Shared machinery: build the code under test from /repo's working tree, run harnesses,
run TLC, write evidence, report violations."""
import os, sys, json, time, hashlib, subprocess, shutil, tempfile, re, random, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
if REPO != "/repo": BUILD += "/alt_" + hashlib.sha256(REPO.encode()).hexdigest()[:8]      # while developing: several trees at once
OVERLAY = os.path.join(BUILD, "overlay")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

class CheckError(Exception):
    """The machinery itself failed (exit 2): neither a pass nor a violation."""

class BuildFailure(CheckError):
    pass

DEADLINE = None      # a quick run has to end by then (set by Ctx)
UNDECIDED = []       # trace modules that ran out of time after rejecting some histories

# ---------------------------------------------------------------- building
def overlay():
    """Boost headers with the two accessors newer Boost removed, so that the repository's
    sources compile unmodified (see DESIGN.md)."""
    os.makedirs(OVERLAY + "/boost/asio/ssl", exist_ok=True)
    def put(rel, text):
        p = os.path.join(OVERLAY, rel)
        if not os.path.exists(p) or open(p).read() != text:
            with open(p, "w") as f: f.write(text)
    s = open("/usr/include/boost/asio/basic_socket.hpp").read()
    a = "public:\n  /// The type of the executor associated with the object.\n"
    if s.count(a) != 1: raise CheckError("unexpected Boost.Asio basic_socket.hpp")
    s = s.replace(a, """public:
  ::boost::asio::io_context& get_io_service()
  { return static_cast< ::boost::asio::io_context&>(::boost::asio::query(impl_.get_executor(), ::boost::asio::execution::context)); }
""" + a[8:])
    s = s.replace("#include <boost/asio/detail/config.hpp>",
                  "#include <boost/asio/detail/config.hpp>\n#include <boost/asio/io_context.hpp>", 1)
    put("boost/asio/basic_socket.hpp", s)
    s = open("/usr/include/boost/asio/ssl/context.hpp").read()
    a = "  BOOST_ASIO_DECL explicit context(method m);"
    if s.count(a) != 1: raise CheckError("unexpected Boost.Asio ssl/context.hpp")
    put("boost/asio/ssl/context.hpp",
        s.replace(a, a + "\n  context(::boost::asio::io_context&, method m) : context(m) {}"))

BASEFLAGS = ["-std=c++11", "-g1", "-w", "-fPIC", "-DNDEBUG", "-DBOOST_DISABLE_PRAGMA_MESSAGE",
             "-DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS", "-include", "boost/logic/tribool_io.hpp"]
LIBS = ["-lboost_thread", "-lboost_system", "-lboost_filesystem", "-lboost_regex", "-lboost_date_time",
        "-lz", "-lbz2", "-lssl", "-lcrypto", "-ldl", "-lpthread"]
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

def _sha(path):
    try:
        with open(path, "rb") as f: return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return "missing"

def _depkey(cmd, depfile):
    """key of an object: its command line and the contents of everything it was made from
    (system headers are taken as fixed)"""
    h = hashlib.sha256(" ".join(cmd).encode())
    txt = open(depfile).read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    for d in sorted(set(deps)):
        if d.startswith(("/usr/", "/lib/")): continue
        h.update(d.encode()); h.update(_sha(d).encode())
    return h.hexdigest()

def compile_one(src, flags, tag):
    odir = os.path.join(BUILD, "obj", tag); os.makedirs(odir, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9_.]", "_", src)
    obj, dep, keyf = (os.path.join(odir, name + e) for e in (".o", ".d", ".key"))
    cmd = ["g++"] + BASEFLAGS + flags + ["-I" + OVERLAY, "-I" + VERIF + "/harness", "-I" + REPO + "/include",
           "-MMD", "-MF", dep, "-c", src, "-o", obj]
    if os.path.exists(obj) and os.path.exists(dep) and os.path.exists(keyf):
        if open(keyf).read() == _depkey(cmd, dep): return obj
    for f in (obj, keyf):
        if os.path.exists(f): os.remove(f)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildFailure("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    with open(keyf, "w") as f: f.write(_depkey(cmd, dep))
    return obj

def build(name, harness, repo_srcs, flags=("-O1",), libs=(), tag=None, extra_link=(), _all=False):
    """link /verif/harness/<harness> with /repo/<repo_srcs>; returns the binary's path"""
    overlay()
    flags = list(flags)
    tag = tag or hashlib.sha256(" ".join(flags).encode()).hexdigest()[:8]
    srcs = [os.path.join(VERIF, "harness", h) for h in ([harness] if isinstance(harness, str) else harness)]
    srcs += [os.path.join(REPO, s) for s in repo_srcs]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        # -fsanitize=thread: harness/vrace.hpp takes the place of the sanitizer's library
        objs = list(ex.map(lambda s: compile_one(s, [f for f in flags if f != "-fsanitize=thread"] if s.endswith("/vsched.cpp") else flags, tag), srcs))
    os.makedirs(BUILD + "/bin", exist_ok=True)
    out = os.path.join(BUILD, "bin", name)
    key = hashlib.sha256(("|".join(_sha(o) for o in objs) + repr((flags, libs, extra_link))).encode()).hexdigest()
    keyf = out + ".key"
    if os.path.exists(out) and os.path.exists(keyf) and open(keyf).read() == key: return out
    cmd = ["g++"] + [f for f in flags if f != "-fsanitize=thread"] + objs + ["-o", out] + list(extra_link) + list(libs) + LIBS
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and not _all:
        # code may have moved to another source file: take the whole library
        allsrc = sorted(set(repo_srcs) | {"src/" + f for f in os.listdir(REPO + "/src") if f.endswith(".cpp")})
        return build(name, harness, allsrc, flags, libs, tag, extra_link, True)
    if r.returncode: raise BuildFailure("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
    with open(keyf, "w") as f: f.write(key)
    return out

def build_so(name, harness_src, flags=("-O1",)):
    """a shared object made from a harness source only"""
    overlay()
    o = compile_one(os.path.join(VERIF, "harness", harness_src), list(flags), "so")
    os.makedirs(BUILD + "/bin", exist_ok=True)
    out = os.path.join(BUILD, "bin", name)
    r = subprocess.run(["g++", "-shared", "-o", out, o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildFailure(r.stdout[-3000:])
    return out

# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(s): s.ok = False; s.out = ""; s.states = 0; s.distinct = 0; s.violations = []; s.prints = []; s.err = None

_mem_per = {}
def tlc(module, cfg, env=None, workers=None, cont=False, heap="3g", timeout=600, extra=(), deadlock=False, workdir=None):
    """Run TLC; returns TlcResult. result.violations: names of violated invariants/properties.
    Any failure that is not a property violation raises CheckError."""
    wd = workdir or tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    cfgp = cfg
    if "\n" in cfg:
        cfgp = os.path.join(wd, module + ".cfg")
        with open(cfgp, "w") as f: f.write(cfg)
    elif not os.path.isabs(cfg): cfgp = os.path.join(SPEC, cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + wd, "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC",
           "-config", cfgp, "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE",
           "-workers", str(workers or NCPU)]
    if not deadlock: cmd.append("-deadlock")
    if cont: cmd.append("-continue")
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
    if DEADLINE: timeout = min(timeout, max(60, DEADLINE - time.time()))
    try:
        r = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as x:
        err = CheckError("TLC timed out on %s" % module)
        err.out = x.stdout.decode("utf-8", "replace") if isinstance(x.stdout, bytes) else x.stdout or ""
        raise err
    finally:
        shutil.rmtree(os.path.join(wd, "meta"), ignore_errors=True)
    t = TlcResult(); t.out = r.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout.replace(",", "").replace("generated ", "generated, "))
    if m: t.states, t.distinct = int(m[-1][0]), int(m[-1][1])
    else:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", r.stdout)
        if m: t.states, t.distinct = (int(x.replace(",", "")) for x in m[-1])
    t.violations = re.findall(r"Error: Invariant (\S+) is violated", r.stdout) + \
                   re.findall(r"Error: Action property (\S+) is violated", r.stdout) + \
                   (["temporal"] if "Temporal properties were violated" in r.stdout or re.search(r"Temporal property \S+ was violated", r.stdout) else []) + \
                   (["deadlock"] if "Error: Deadlock reached" in r.stdout else []) + \
                   (["postcondition"] if re.search(r"POSTCONDITION|PostCondition", r.stdout) and "is false" in r.stdout else [])
    t.prints = re.findall(r'^<<"@@", (.*)>>$', r.stdout, re.M)
    if r.returncode == 0:
        t.ok = True
    elif r.returncode in (10, 11, 12, 13) and t.violations:
        t.ok = False
    else:
        raise CheckError("TLC failed (exit %d) on %s:\n%s" % (r.returncode, module, r.stdout[-3500:]))
    return t

# ---------------------------------------------------------------- scratch
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD + "/tmp", exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run_", dir=BUILD + "/tmp")
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

# ---------------------------------------------------------------- strings as byte runs
def rle(bs):
    out = []
    for b in bs:
        if out and out[-1][0] == b: out[-1][1] += 1
        else: out.append([b, 1])
    return out
def unrle(runs): return b"".join(bytes([b]) * n for b, n in runs)

def runs_text(bs):
    """byte string as the harness input word"""
    return ",".join("%d:%d" % (b, n) for b, n in rle(bs)) or "-"

# ---------------------------------------------------------------- running a harness over cases
def run_batch(binary, cases, nproc=NCPU, timeout=600, env=None, args=()):
    """cases: list of (id, input text). Returns {id: outcome dict}. A case on which the harness
    dies (sanitizer report, signal, hang) gets {"id":.., "crash": text}."""
    e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1"; e.update(env or {})
    def shard(part):
        res = {}; part = list(part); deaths = 0
        while part:
            try:
                r = subprocess.run([binary] + list(args), input="".join(t for _, t in part).encode("latin-1"), stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=timeout, env=e)
                rc, so, se = r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired as x:
                rc, so, se = 97, x.stdout or b"", b"@@HANG batch timeout"
            done = 0
            for line in so.decode("latin-1").splitlines():
                try: o = json.loads(line)
                except ValueError: continue
                if done < len(part) and o["id"] == part[done][0]:
                    res[o["id"]] = o; done += 1
            if done == len(part): break
            if rc == 0: raise CheckError("harness %s gave no outcome for case %s: %s" % (binary, part[done][0], se[-500:]))
            res[part[done][0]] = {"id": part[done][0], "crash": se.decode("latin-1")[-3000:], "rc": rc}
            part = part[done + 1:]; deaths += 9 if b"@@HANG" in se else 1   # hangs cost time: give up soon
            if deaths >= 25:
                for i, _ in part: res[i] = {"id": i, "crash": "not run: too many crashes"}
                break
        return res
    n = max(1, min(nproc, len(cases)))
    out = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(shard, [cases[i::n] for i in range(n)]): out.update(r)
    return out

def validate(module, cfg, records, env=None, timeout=600, heap="6g", workers=None, expect=None):
    """Check recorded cases (dicts with "id") with a trace module that prints <<"@@", id, verdict, ...>>.
    Returns (rejected {id: text}, TlcResult)."""
    if not records: return {}, TlcResult()
    path = os.path.join(scratch(), "trace_%s_%d.ndjson" % (module, len(os.listdir(scratch()))))
    with open(path, "w") as f:
        for r in records: f.write(json.dumps(r) + "\n")
    e = {"TRACE": path}; e.update(env or {})
    if DEADLINE: timeout = min(timeout, max(60, DEADLINE - 130 - time.time()))   # leave time to judge again
    late = None
    try:
        t = tlc(module, cfg, env=e, timeout=timeout, heap=heap, workers=workers)
    except CheckError as x:
        if not hasattr(x, "out"): raise
        # what was rejected by then is rejected; without a rejection there is no answer
        late = x; t = TlcResult(); t.out = x.out; t.ok = True
        t.prints = re.findall(r'^<<"@@", (.*)>>$', t.out, re.M)
    if not t.ok: raise CheckError("trace module %s: invariant %s broken\n%s" % (module, t.violations, t.out[-3000:]))
    acc, rej = set(), {}
    for line in t.prints:
        m = re.match(r'(\d+), "([^"]*)"(.*)$', line)
        if not m: continue
        i = int(m.group(1))
        if m.group(2) == "ok": acc.add(i)
        else: rej[i] = m.group(2) + m.group(3)
    want = {r["id"] for r in records} if expect is None else expect
    if late:
        if not rej: raise late
        UNDECIDED.append("%s: out of time after %d of %d cases" % (module, len(acc | set(rej)), len(want)))
        return rej, t
    if (acc | set(rej)) != want: raise CheckError("trace module %s decided %d of %d cases\n%s" % (module, len(acc | set(rej)), len(want), t.out[-2500:]))
    os.remove(path)
    return rej, t

# ---------------------------------------------------------------- one check
class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.model_runs = []; self.samples = []; self.violations = []; self.notes = []
        self.level = "model_checking"; self.assumptions = []; self.known = []
        self.extra_cov = {}
        global DEADLINE
        DEADLINE = None if tier == "thorough" else self.t0 + 800
    @property
    def thorough(self): return self.tier == "thorough"
    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)
    def model(self, module, cfg, **kw):
        """model-check the specification itself; a violation here is an error of the spec"""
        t = tlc(module, cfg, **kw)
        if not t.ok: raise CheckError("the specification %s violates %s:\n%s" % (module, t.violations, t.out[-3000:]))
        self.states += t.distinct; self.transitions += t.states
        self.model_runs.append({"module": module, "config": cfg if "\n" not in cfg else "inline", "states": t.distinct, "transitions": t.states})
        self.log("model", module, "distinct", t.distinct, "generated", t.states)
        return t
    def defect(self, module, cfg, **kw):
        """a design with a known defect: TLC has to find it (otherwise the model is blind)"""
        t = tlc(module, cfg, **kw)
        if t.ok: raise CheckError("the specification %s accepts a defective design" % module)
        self.states += t.distinct; self.transitions += t.states
        self.model_runs.append({"module": module, "config": "defective design, refuted by " + ",".join(t.violations), "states": t.distinct, "transitions": t.states})
    def sample(self, s, limit=6):
        if len(self.samples) < limit: self.samples.append(str(s)[:400])
    def violation(self, what, data):
        self.violations.append((what, data))
    def finish(self):
        if UNDECIDED and not self.violations: raise CheckError("no answer: " + "; ".join(UNDECIDED))
        rep = []
        if self.violations:
            d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
            for n, (what, data) in enumerate(self.violations[:20]):
                p = os.path.join(d, "%s_%d.json" % (self.prop, n))
                with open(p, "w") as f: json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1, default=str)
                rep.append(p)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "samples": self.samples, "model_runs": self.model_runs},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        ev["coverage"].update(self.extra_cov)
        if self.notes: ev["notes"] = self.notes
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.prop), "w") as f: json.dump(ev, f, indent=1)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for (what, _), p in zip(self.violations[:20], rep):
            print("  %s" % what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        sys.stdout.flush()
        return 1 if self.violations else 0
