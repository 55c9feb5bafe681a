#!/usr/bin/env python3
"""Writes MANIFEST.json (python3 tools/manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
VMT = "TLA+ specification of the VM (spec/Q3VM.tla, VMConf.tla); TLC validates logs of the real library against it"
VMN = ("TLC decides for every recorded run of the real library, step by step, whether it is a behaviour of the specification; "
       "cases are seeded generated host scripts, guest programs and images plus enumerated boundary grids. Bounded by the generated cases; "
       "trusts TLC, the compilers and the black-box harness.")
CHECKS = {}
for i in range(1, 16):
    CHECKS["V%02d" % i] = ("python3 checks/vm.py V%02d" % i, VMT, "model_checking", VMN)
try:
    exec(open(V + "/tools/manifest_more.py").read())
except FileNotFoundError:
    pass
NA = {}
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks: all checks are black-box", source_commits=[]),
         checks=[dict(property=p, quick_cmd=c, thorough_cmd="env VERIF_TIER=thorough " + c, technique=t, level=l, level_note=n) for p, (c, t, l, n) in sorted(CHECKS.items())],
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "check under construction")) for p in props if p["id"] not in CHECKS],
         notes="See DESIGN.md. The thorough commands are the quick ones with more and larger cases.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
