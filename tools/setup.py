#!/usr/bin/env python3
"""Compiles every harness once, so that checks find their objects in the cache when it is kept."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcbuild
from registry import CHECKS
done = set()
mcbuild.build_lib()
for pid, spec in CHECKS.items():
    for run in spec["runs"]:
        key = (run["name"], tuple(run.get("flags", ["-O2"])))
        if key in done:
            continue
        done.add(key)
        print(pid, run["name"], mcbuild.build_harness(run["name"], run["srcs"], run.get("flags", ["-O2"]), libs=run.get("libs", True),
              extra_link=run.get("link"), only=run.get("only"), libflags=run.get("libflags")), flush=True)
