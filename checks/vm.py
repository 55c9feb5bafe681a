#!/usr/bin/env python3
"""Checks of the virtual machine properties: checks/vm.py V01 ... V15"""
import os, sys, random, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vmrun import *
import vmcases

R, L = ("goto-O2", "R", 0xa5), ("goto-O2", "L", 0x5a)
SW, O0, CL, AS = ("switch-O2", "R", 0x33), ("goto-O0", "R", 0xcc), ("clang-O2", "R", 0x11), ("asan", "R", 0x77)
DA = ("debug-asan", "R", 0x3c)
D0, D2 = ("debug-O0", "R", 0x99), ("debug-O2", "L", 0x42)
VARIANTS = dict(V01=[R, SW], V02=[R, L, SW, AS], V03=[R, L, SW], V04=[R, SW, CL], V05=[R, L, AS], V06=[R, L], V07=[R, SW], V08=[R, SW],
                V09=[R, SW], V10=[R, AS], V11=[R, CL], V12=[R, SW, O0, CL, ("goto-O3", "R", 0), ("switch-O0", "R", 1), D0, D2],
                V13=[R, SW], V14=[D0, D2], V15=[D0, DA, R])
ALTS = dict(V13=[("goto-O2", "R", 0x00), ("goto-O2", "R", 0x5a)])
RULE = "seeded generated host scripts with guest programs; a case is one script run on every listed build (library, memory placement, paint byte); " \
       "non-trivial: the guest executes instructions or a documented error is expected"


def main_():
    pid = sys.argv[1]
    r = random.Random("%s-%d" % (pid, SEED))
    cases = getattr(vmcases, pid.lower())(r, QUICK)
    ids = set()
    for k, c in enumerate(cases):
        c.id = ("%d-%s" % (k, c.id))[:60].replace(" ", "_")
    vs = VARIANTS[pid]
    if not QUICK:
        extra = {"V14": [], "V15": [D2, SW]}.get(pid, [SW, O0, CL, AS, L])
        vs = vs + [v for v in extra if v not in vs]
    rc = 0
    how = dict(module="VMProf", cfg=PROFCFG) if pid == "V15" else {}
    chunk = 6000
    for k in range(0, len(cases), chunk):
        rc = conform(pid, cases[k:k + chunk], vs, maxsteps=3000, rule=RULE, alts=ALTS.get(pid), **how,
                     extra_cov=dict(total_cases=len(cases)),
                     assumptions=["TLC evaluates the specification correctly", "the black-box harness harness/vmh.c reports interface events faithfully",
                                  "wall-clock termination of non-terminating guests is out of scope"])
        if rc:
            break
    return rc


main(main_)
