#!/usr/bin/env python3
"""Check of the generator of tree matchers: checks/burg.py B01"""
import json, multiprocessing, os, random, re, resource, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vl import *
import acc, burggen, toolchain

SIZE = dict(B01=(2400, 40000))
RULE = ("random tree grammars given to the generator, half of them disturbed; the generated matchers are compiled and label random trees; "
        "non-trivial: a grammar that is rejected with its line (invalid) or whose matcher labelled its trees (labelled)")
EXE = {}
TMO = 20


def limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (20 << 20, 20 << 20))


def sh(args, cwd, stdin=None, tmo=None):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=126", UBSAN_OPTIONS="exitcode=126", TMPDIR=cwd)
    with open(cwd + "/.so", "wb") as so, open(cwd + "/.se", "wb") as se, open(stdin or "/dev/null", "rb") as si:
        p = subprocess.Popen(args, cwd=cwd, stdin=si, stdout=so, stderr=se, env=e, preexec_fn=limits)
        try:
            rc = p.wait(tmo or TMO)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -99
    rd = lambda n: open(cwd + "/" + n, "rb").read().decode("latin-1")
    return rc, rd(".so"), rd(".se")


def one(pid, k):
    r = random.Random("%s-%d-%d" % (pid, SEED, k))
    while True:
        g = burggen.Gram(r)
        g.build()
        lines = g.lines()
        damaged = k % 2 == 1
        if damaged:
            lines = burggen.mutate(r, g, lines)
        tail = not damaged
        pfx = r.choice(["", "", "x", "b2", "_m", "long_prefix_of_a_matcher"])
        traced = r.random() < 0.6
        text, where = burggen.render(r, g, lines, pfx, traced, tail, VERIF + "/harness")
        cut = not tail and r.random() < 0.15 and lines[-1]
        if cut:
            text = text.rstrip("\n")
            lines[-1] = lines[-1] + [burggen.tok("bad")]      # (its line has no end)
        if max(len(l) for l in text.split("\n")) < 4000:
            break
    wd = scratch("burg")
    case = dict(name="%s-%d" % (pid, k), lines=lines, traced=traced, run=tail, crash="", rc=0, errs=0, first=0, trees=[], got={}, cmd="good")
    try:
        with open(wd + "/g.md", "w") as f:
            f.write(text)
        kind = "asan" if k % 3 else "O0"
        opts = (["-T"] if traced else []) + r.choice([["-p", pfx], ["-p" + pfx]] if pfx else [[]])
        if len(opts) == 2 and r.random() < 0.3 and opts[0] == "-T":
            opts = opts[::-1]
        inp, out = r.choice(["g.md", "g.md", "-", ""]), r.choice(["out.c", "out.c", "-", ""])
        if not inp:
            out = ""
        files = [x for x in (inp, out) if x]
        args = opts + files if r.random() < 0.7 else files + opts
        if k % 40 == 20:
            case["cmd"] = "bad"
            case["run"] = False
            case["lines"] = []
            args = r.choice([args + ["-x"], ["-T", "-Tq"] + args, args + ["-p"], ["missing.md", "out.c"], ["g.md", "missing/out.c"], ["--", "g.md"]])
        rc, so, se = sh([EXE[kind]] + args, wd, wd + "/g.md" if inp in ("", "-") else None)
        crash = ""
        if rc == -99:
            crash = "hang"
        elif rc not in (0, 1) or "AddressSanitizer" in se or "runtime error" in se:
            crash = "crash: %d %s" % (rc, " / ".join(l for l in se.splitlines() if "rror" in l or "ssert" in l)[-300:])
        elif os.path.exists(wd + "/-"):
            crash = "wrote a file named -"
        msgs = se.splitlines()
        at = [int(m.group(1)) for m in (re.match(r"line (\d+): ", l) for l in msgs) if m]
        case.update(rc=rc, errs=len(msgs), first=where.get(min(at), 0) if at else 0)
        if not crash and rc == 0 and case["run"]:
            if out in ("", "-"):
                with open(wd + "/out.c", "w") as f:
                    f.write(so)
            trees = [g.tree() for _ in range(r.choice([1, 2, 4]))]
            case["trees"] = trees
            with open(wd + "/trees", "w") as f:
                f.write(" ".join([str(len(trees))] + [" ".join([str(len(t))] + [str(x) for n in t for x in n]) for t in trees]))
            rc, so, se = sh(["gcc", "-w", "-O0", "-o", "m", "out.c"], wd, tmo=60)
            if rc:
                crash = "the generated code does not compile: " + se[:400]
            else:
                rc, so, se = sh([wd + "/m"], wd, wd + "/trees")
                try:
                    case["got"] = json.loads(so)
                except ValueError:
                    crash = "the matcher failed: %d %s" % (rc, (so + se)[-200:])
        case["crash"] = crash
        return case, text + "-- %s\n" % args + "\n".join(msgs[:10]) + crash
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def job(a):
    return one(*a)


def main_():
    pid = sys.argv[1]
    for k in ("O0", "asan"):
        EXE[k] = toolchain.lburg(k)
    n = SIZE[pid][0 if QUICK else 1]
    only = [int(x) for x in os.environ.get("ONLY", "").split()] or range(n)
    with multiprocessing.Pool(8) as ex:
        got = ex.map(job, [(pid, k) for k in only], chunksize=16)
    items = [g[0] for g in got]
    text = {g[0]["name"]: g[1] for g in got}
    log("%s: %d grammars" % (pid, len(items)))

    def again(it):
        global TMO
        TMO = 120
        return one(pid, int(it["name"].split("-")[1]))[0]
    return acc.decide(pid, "Burg", items, again, RULE, invs=["Sane"], chunk=4000,
                      assumptions=["TLC evaluates the specification correctly", "grammars and trees of the generated form (see DESIGN.md)", "the host compiler compiles the matchers correctly"],
                      cov=dict(builds=["gcc -O0", "gcc -O1 with AddressSanitizer and UBSan"]), describe=lambda it: text[it["name"]])


if __name__ == "__main__":
    main(main_)
