#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]   exit 0 held, 1 violated (VIOLATION line), 2 machinery error"""
import sys, os, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
MODULES = ["chk_http", "chk_algo", "chk_form", "chk_msg", "chk_user", "chk_plugin", "chk_sched", "chk_spdy", "chk_srv", "chk_tcp", "chk_file", "chk_stream", "chk_time", "chk_conf", "chk_tls", "chk_svc", "chk_mt"]
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import importlib
    fn = None
    for m in MODULES:
        fn = getattr(importlib.import_module(m), prop, None)
        if fn: break
    if not fn: print("unknown property", prop); return 2
    ctx = vf.Ctx(prop, tier)
    try:
        fn(ctx)
        return ctx.finish()
    except vf.CheckError as e:
        print("CHECK ERROR:", e, file=sys.stderr); return 2
    except Exception:
        traceback.print_exc(); return 2
if __name__ == "__main__": sys.exit(main())
