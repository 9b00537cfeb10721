#!/usr/bin/env python3-vt
"""Developer's tool, never run by a check: prints known-findings lines for the
replay files given, to be reviewed and pasted into known-findings.txt."""
import json, sys
for f in sys.argv[1:]:
    j = json.load(open(f))
    print("finding: property=%s input=%s what=%s # %s pool, options '%s', %s" % (
        j["property"], j["key"], j["what"], j.get("tag"), j.get("options", ""), j["note"][:80]))
