#!/usr/bin/env python3
"""Check of the standalone interpreter: checks/host.py H01"""
import os, sys, random, resource, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vl import *
import acc, toolchain, hostgen

N = 900 if QUICK else 12000
RULE = ("generated image files (guests that print, fail, wander; broken files) run by the real q3vm program; non-trivial: a run whose output "
        "and exit status are determined")
CONSTS = "CONSTANT POISON = POISON\nCONSTANT Debug = FALSE\n"
EXE = {}
PRE = []


def run(name, img, exe, tmo):
    wd = scratch("host")
    try:
        fn = wd + "/" + "image.qvm"
        if img is not None:
            with open(fn, "wb") as f:
                f.write(img)
        elif name.startswith("directory"):
            os.mkdir(fn)
        cmd = [exe] + ([] if name.startswith("noargument") else ["image.qvm"])
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=97:allocator_may_return_null=1")
        crash = ""
        # endless output ends like endless computation
        lim = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (300000, 300000))
        with open(wd + "/out", "wb") as fo, open(wd + "/err", "wb") as fe:
            p = subprocess.Popen(cmd, cwd=wd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=env, preexec_fn=lim)
            try:
                rc = p.wait(tmo)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc, crash = 0, "timeout"
        out, err = open(wd + "/out", "rb").read(), open(wd + "/err", "rb").read()
        if rc == -25:
            crash = "timeout"
        elif b"memcpy-param-overlap" in err and exe == EXE["asan"]:
            # a copy the guest asked for, inside its memory: its result is unspecified, and that is all
            return run(name, img, EXE["O2"], tmo)
        elif rc < 0:
            crash = "ended by signal %d" % -rc
        elif b"AddressSanitizer" in err and b"SUMMARY" in err:
            crash = "memory error: " + " ".join(x for x in err.decode("latin-1").split("\n") if "ERROR: Add" in x or "#0" in x or "#1" in x)[:300]
        # of a very long file only the length and the header matter
        return dict(name=name, img=list(img or b"")[:10000], n=len(img or b""), out=list(out[:300000]), err=list(err[:300000]), rc=max(rc, 0), crash=crash, pre=PRE)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main_():
    pid = sys.argv[1]
    EXE["O2"], EXE["asan"] = toolchain.q3vm("O2"), toolchain.q3vm("asan")
    # what the interpreter says about loading: all it prints when a silent guest runs
    p = hostgen.silent()
    PRE.extend(run("silent", p, EXE["O2"], 60)["out"])
    cs = hostgen.cases(random.Random("H01-%d" % SEED), N)
    todo = [("%s-%d-%s" % (n, k, b), i, EXE[b]) for k, (n, i) in enumerate(cs) for b in (("O2", "asan") if k < 6 else (("O2", "asan")[k % 2],))]
    only = os.environ.get("ONLY", "").split()
    if only:
        todo = [t for t in todo if t[0].split("-")[1] in only]
    with ThreadPoolExecutor(8) as ex:
        items = list(ex.map(lambda t: run(*t, 2), todo))
    log("H01: %d runs" % len(items))
    by = {t[0]: t for t in todo}
    show = lambda it: "%s: exit %d %s\nstdout %r\nstderr %r" % (it["name"], it["rc"], it["crash"], bytes(it["out"])[:800], bytes(it["err"])[:800])
    return acc.decide(pid, "Host", items, lambda it: run(*by[it["name"]], 60), RULE, invs=("Safe",), consts=CONSTS,
                      assumptions=["TLC evaluates the specification correctly", "guests of the generated form (see DESIGN.md)"],
                      cov=dict(builds=["gcc -O2", "gcc -O1 with AddressSanitizer"]), describe=show)


main(main_)
