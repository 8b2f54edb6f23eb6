"""Writes MANIFEST.json from the table of claimed checks (python3 lib/manifest.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props_src
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HTTP = "TLC-checked byte-level specification of the parser (design model: sender and parser), bound to the code by trace validation of recorded parses in TLC"
HN = ("TLC checks the specification exhaustively in small constants; the real parser (compiled from /repo with ASan) is run on inputs derived from the specification's own "
      "state graph, a message grammar and corruptions, and TLC decides every recorded outcome. Trusts TLC, the harness and Boost; inputs beyond the generated ones are not covered.")
CLAIMED = {
 "P01": (HTTP + " (outcome is a function of the bytes)", HN), "P02": (HTTP, HN), "P03": (HTTP, HN), "P04": (HTTP, HN), "P05": (HTTP, HN), "P06": (HTTP, HN),
}
try:
    from claims import MORE
    CLAIMED.update(MORE)
except ImportError: pass
NA = {}
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for p in props_src.P:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": CLAIMED[i][0], "level": "model_checking", "level_note": CLAIMED[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
m["notes"] = "TLA+ specifications in spec/, checked with TLC; harnesses in harness/ build /repo's sources unmodified; see DESIGN.md."
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
with open(HERE + "/properties.jsonl", "w") as f:
    for x in props_src.P: f.write(json.dumps(x) + "\n")
