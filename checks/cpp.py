#!/usr/bin/env python3
"""Checks of the preprocessor: checks/cpp.py P01 ... P04"""
import os, sys, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vl import *
import acc, toolchain, cppgen

SIZE = dict(P01=(1100, 20000), P02=(1400, 20000), P03=(1600, 20000), P04=(1000, 20000))
RULE = ("random source files, headers and options, preprocessed by the real q3cpp; non-trivial: a file whose whole output is determined "
        "and compared token by token, or which must be and is diagnosed")
EXE = {}
TMO = 10


def setup():
    for k in ("O0", "asan"):
        EXE[k] = toolchain.compiler(k) + "/q3cpp"


def make(pid, k):
    r = random.Random("%s-%d-%d" % (pid, SEED, k))
    return cppgen.MAKE[pid](r).case("%s-%d" % (pid, k)), "asan" if k % 2 else "O0", r.random() < .5


def run(case, kind, tofile):
    """the case with what the preprocessor did"""
    wd = scratch("cpp")
    try:
        for f in case["files"]:
            p = os.path.join(wd, f["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="latin-1", newline="") as h:
                h.write(f["text"])
        cmd = [EXE[kind]] + ["-I" + d for d in case["dirs"]] + ["-" + o["k"] + o["s"] for o in case["opts"]] + [case["main"]]
        if tofile:
            cmd.append("out.i")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=97:allocator_may_return_null=1")
        crash, out = "", b""
        try:
            q = subprocess.run(cmd, cwd=wd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=TMO, env=env)
            err, out, rc = q.stderr.decode("latin-1"), q.stdout, q.returncode
            if rc < 0:
                crash = "ended by signal %d" % -rc
            elif rc == 97 or "AddressSanitizer" in err:
                crash = "memory error: " + " ".join(x for x in err.split("\n") if "ERROR: Add" in x or "#0" in x or "#1" in x)[:300]
            if tofile and os.path.exists(wd + "/out.i"):
                out += open(wd + "/out.i", "rb").read()
        except subprocess.TimeoutExpired:
            crash, err, rc = "does not end", "", 0
        if len(out) > 4000000:
            crash, out = crash or "output without end", b""
        c = dict(name=case["name"], files=[dict(name=f["name"], ch=list(f["text"])) for f in case["files"]], dirs=case["dirs"], opts=case["opts"],
                 rc=min(abs(rc), 1), crash=crash, err=err[:300], out=list(out.decode("latin-1")), vt="\v", ascii=[chr(i) for i in range(32, 127)])
        return c
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def one(pid, k):
    case, kind, tofile = make(pid, k)
    return run(case, kind, tofile)


def main_():
    pid = sys.argv[1]
    setup()
    only = [int(x) for x in os.environ.get("ONLY", "").split()] or range(SIZE[pid][0 if QUICK else 1])
    with ThreadPoolExecutor(8) as ex:
        items = list(ex.map(lambda k: one(pid, k), only))
    log("%s: %d inputs preprocessed" % (pid, len(items)))

    def again(it):
        global TMO
        TMO = 60
        return one(pid, int(it["name"].split("-")[1]))
    show = lambda it: "\n".join("--- %s\n%s" % (f["name"], "".join(f["ch"])[:3000]) for f in it["files"]) + "\n--- output\n" + "".join(it["out"])[:2000]
    return acc.decide(pid, "Cpp", items, again, RULE, assumptions=["TLC evaluates the specification correctly", "inputs of the generated form (see DESIGN.md)"],
                      cov=dict(builds=["gcc -O0", "gcc -O1 with AddressSanitizer"]), describe=show)


main(main_)
