"""setup_cmd: check that the tools are there and every specification parses (checks build what they need themselves)."""
import os, sys, subprocess, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
vf.overlay()
bad = 0
for f in sorted(glob.glob(vf.SPEC + "/*.tla")):
    r = subprocess.run(["java", "-Djava.io.tmpdir=" + vf.scratch(), "-DTLA-Library=" + vf.SPEC, "-cp", vf.JAR, "tla2sany.SANY", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=vf.scratch())
    if r.returncode or "*** Errors" in r.stdout:
        print(f, "does not parse:\n", r.stdout[-1500:]); bad = 1
print("setup ok" if not bad else "setup failed")
sys.exit(bad)
