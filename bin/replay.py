#!/usr/bin/env python3
"""replay.py FILE: runs the recorded case on the real code again, prints what it did, and validates it."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
v = json.load(open(sys.argv[1]))
os.environ["VH_VERBOSE"] = "1"
if "case" not in v:
    print(json.dumps(v, indent=1))
    sys.exit(1)
print("case:", json.dumps(v["case"])[:2000])
runs, _ = vlib.run_cases(vlib.build() or vlib.build(v["area"]), v["area"], [v["case"]], os.path.join(vlib.WORK, "replay"))
ev = runs[0][1]
for j, e in enumerate(ev):
    print("%s%4d %s" % (">>" if j == v["event"] else "  ", j, json.dumps(vlib.shorten(e))[:400]))
c = vlib.Check("REPLAY")
bad = c.validate(v["area"], v["module"], [(v["case"], ev)], v["consts"], spec=v["spec"], silent=v.get("silent", False))
print("REJECTED at event %d: %s" % (bad[0]["event"], bad[0]["what"]) if bad else "accepted")
sys.exit(1 if bad else 0)
