#!/usr/bin/env python3-vt
"""mkseed.py ID PROPERTY PATCH REPLAY MODE NEEDS BREAKS: writes seeded/ID from
a replay file of the scan or printed-code checks (developer's tool)."""
import json, os, re, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/lib", HERE + "/checks"]
from core import *
id_, prop, patch, replay, mode, needs, breaks = sys.argv[1:8]
r = json.load(open(replay))
prog = prog_from_json(r["prog"])
m = re.search(r"parameters (<<.*?>>)", r["note"])
if m:
    ps = [int(x) for x in re.findall(r"-?\d+", m.group(1))]
else:       # the parameters with the most instances
    ps = max((p for p in itertools.product(range(-3, 7), repeat=prog.np) if prog.in_ctx(p)),
             key=lambda p: sum(len(prog.points(s, p)) for s in range(len(prog.stmts))))
d = os.path.join(HERE, "seeded", id_)
os.makedirs(d, exist_ok=True)
inst = []
for s in range(len(prog.stmts)):
    for it in prog.points(s, ps):
        inst.append([[s + 1] + list(it), list(prog.date(s, it, ps))])
json.dump({"options": r["options"].split(), "params": ps, "mode": mode,
           "depths": [x.d for x in prog.stmts], "instances": inst},
          open(d + "/expected.json", "w"))
open(d + "/input.cloog", "w").write(r["input"])
shutil.copy(HERE + "/tools/demo.py", d)
shutil.copy(patch, d + "/patch.diff")
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
