#!/usr/bin/env python3
"""Regenerates libhints.json (which files of /repo/lib each harness links)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcbuild
from registry import CHECKS
H = {}
for pid, spec in CHECKS.items():
    for run in spec["runs"]:
        if run["name"] in H or not run.get("libs", True) or run.get("libflags"):
            continue
        H[run["name"]] = mcbuild.make_hint(run["name"], run["srcs"], run.get("flags", ["-O2"]), run.get("link"))
        print(run["name"], len(H[run["name"]]))
json.dump(H, open(f"{mcbuild.VERIF}/tools/libhints.json", "w"), indent=1)
