#!/usr/bin/env python3
"""Checks that the tools the framework needs are there."""
import shutil, sys, os
need = [x for x in ("java", "gcc", "clang") if not shutil.which(x)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    need.append("tla2tools.jar")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if not need:
    import crun
    crun.setup()
print("missing: %s" % need if need else "ok")
sys.exit(1 if need else 0)
