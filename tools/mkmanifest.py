#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import INFO
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={
"C20":"pure arithmetic on two values: no schedule, clock, I/O, randomness or fault it could depend on",
"C21":"a pure function of the bytes fed in: no schedule, clock, I/O or fault it could depend on (that the bytes arrive intact and that snapshots agree with replay is C08 and C13)",
"C22":"a pure function of one colour value: nothing for a simulator to vary",
"C23":"a pure table lookup by name: nothing for a simulator to vary",
"C24":"a pure function of one code point: nothing for a simulator to vary",
}
checks=[]; na=[]
for l in open(os.path.join(V, "properties.jsonl")):
    i=json.loads(l)["id"]
    if i in INFO:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
          "technique": "deterministic simulation with fault injection (seeded schedule and fault search)", "level": "exploration",
          "level_note": "Seeded random exploration of schedules, inputs and faults over the real code in a simulated world; every failure replays exactly. Trusts the simulated kernel/libc and the check's own reference model; cases not drawn are not covered. "+INFO[i].note})
    else: na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
m={"version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks, "not_applicable": na,
   "notes": "No hooks in /repo: the seam is the libc/system call boundary. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
