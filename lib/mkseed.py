"""Tool for planting bugs (never used by a check): makes seeded/<id>/, confirming that the change applies, builds,
passes the stable tests, and that the demonstration tells the trees apart.  /repo is restored afterwards."""
import os, sys, json, subprocess, shutil, textwrap
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OVERLAY = '''import os,sys
out=sys.argv[1]
os.makedirs(out+"/boost/asio/ssl",exist_ok=True); os.makedirs(out+"/pion",exist_ok=True)
s=open("/usr/include/boost/asio/basic_socket.hpp").read()
a="public:\\n  /// The type of the executor associated with the object.\\n"
s=s.replace(a,"public:\\n  ::boost::asio::io_context& get_io_service() { return static_cast< ::boost::asio::io_context&>(::boost::asio::query(impl_.get_executor(), ::boost::asio::execution::context)); }\\n"+a[8:])
s=s.replace("#include <boost/asio/detail/config.hpp>","#include <boost/asio/detail/config.hpp>\\n#include <boost/asio/io_context.hpp>",1)
open(out+"/boost/asio/basic_socket.hpp","w").write(s)
s=open("/usr/include/boost/asio/ssl/context.hpp").read()
a="  BOOST_ASIO_DECL explicit context(method m);"
open(out+"/boost/asio/ssl/context.hpp","w").write(s.replace(a,a+"\\n  context(::boost::asio::io_context&, method m) : context(m) {}"))
'''
DEMO = '''#!/bin/bash
# run in /repo after the build; exit 0: behaves as the property says, nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
python3 "$D/overlay.py" "$T" || exit 4
cp "$D/config.hpp" "$T/pion/config.hpp" || exit 4
F="-std=c++11 -O0 -w %(flags)s -DBOOST_DISABLE_PRAGMA_MESSAGE -DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS -include boost/logic/tribool_io.hpp -I$T -I$R/include -I$R/services"
o=0; pids=""; objs=""
for s in %(srcs)s; do o=$((o+1)); g++ $F -c "$R/$s" -o "$T/$o.o" & pids="$pids $!"; objs="$objs $T/$o.o"; done
g++ $F -c "$D/demo.cpp" -o "$T/demo.o" & pids="$pids $!"
for p in $pids; do wait $p || exit 5; done
%(pre)sg++ %(flags)s "$T/demo.o" $objs -o "$T/demo" -rdynamic -lboost_thread -lboost_system -lboost_filesystem -lboost_regex -lboost_date_time -lz -lbz2 -lssl -lcrypto -ldl -lpthread || exit 6
cd "$T" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def make(id, prop, needs, breaks, edits, demo, srcs, flags="", pre="", check=True):
    if sh("git -C /repo status --porcelain").stdout.strip(): raise SystemExit("/repo not clean")
    d = os.path.join(VERIF, "seeded", id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/overlay.py", "w").write(OVERLAY)
    shutil.copy(VERIF + "/harness/pion/config.hpp", d)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % dict(srcs=" ".join(srcs), flags=flags, pre=pre))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh("cd /repo && bash %s/demo.sh" % d)
    ok = r0.returncode == 0
    if not ok: print(id, "DEMO FAILS ON CLEAN TREE", r0.returncode, r0.stdout[-1500:])
    try:
        for f, old, new in edits:
            p = "/repo/" + f; s = open(p).read()
            if s.count(old) != 1: print(id, "edit matches", s.count(old), "times in", f, old); ok = False; raise StopIteration
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        o = json.load(open("/tmp/seed_out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        miss = set(b["stable"]) - set(o["passed"])
        if miss: print(id, "BREAKS TESTS", sorted(miss)[:5]); ok = False
        r1 = sh("cd /repo && bash %s/demo.sh" % d)
        if r1.returncode in (0, 4, 5, 6): print(id, "DEMO DOES NOT NOTICE", r1.returncode, r1.stdout[-1500:]); ok = False
        caught = None
        if ok and check:
            rc = sh("cd %s && timeout 900 python3 check.py %s quick" % (VERIF, prop))
            caught = rc.returncode == 1 and "VIOLATION property=%s " % prop in rc.stdout
            print(id, prop, "CAUGHT" if caught else "MISSED rc=%d %s" % (rc.returncode, rc.stdout[-600:]))
    except StopIteration: pass
    finally:
        sh("git -C /repo checkout -- .")
    if not ok: shutil.rmtree(d)
    return ok
