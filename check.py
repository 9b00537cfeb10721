#!/usr/bin/env python3-vt
"""check.py <property id>: runs the check of one property (VERIF_TIER selects
quick or thorough, VERIF_SEED the corpora)."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import core

MODULES = {"scan": ("C01", "C02", "C03", "C04", "C05"), "printed_code": ("C06", "C07"),
           "reader": ("C08", "C12"), "refuse": ("C09",), "cmdline": ("C10",), "library": ("C11",), "domains": ("C16",),
           "lifecycle": ("C14",), "saved": ("C15",), "annot": ("C17", "C18"), "bignum": ("C19",)}
LEVEL = {}

if __name__ == "__main__":
    pid = sys.argv[1]
    for m, ids in MODULES.items():
        if pid in ids:
            mod = importlib.import_module(m)
            sys.exit(core.main(pid, LEVEL.get(pid, "model_checking"), mod.CHECKS[pid]))
    print("unknown property " + pid, file=sys.stderr)
    sys.exit(3)
