#!/usr/bin/env python3
"""Checks of the compiler's static rules: checks/static.py L07"""
import os, sys, random, re, shutil, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vl import *
import acc, crun, statgen

SIZE = dict(L07=(6000, 120000))
RULE = ("random translation units, most of them disturbed, given to the compiler; non-trivial: a unit on which the specification decides "
        "(outcomes valid and invalid)")


def make(pid, k):
    r = random.Random("%s-%d-%d" % (pid, SEED, k))
    toks = statgen.program(r)
    if k % 8 == 7:
        toks = statgen.brief(r)
    elif k % 8 in (2, 3, 5):
        toks = statgen.rule(r)
    text, toks, last = statgen.layout(r, toks)
    c = statgen.case("%s-%d" % (pid, k), toks)
    c["last"] = last
    return c, text, r


def one(pid, k):
    case, text, r = make(pid, k)
    how = "lcc" if k % 10 == 0 else "rcc"
    kind = "asan" if k % 4 == 1 else "O0"
    fname = r.choice(["t.c", "t.c", "dir/x.h", "a b.c"]) if how == "rcc" else "t.c"
    # presumed files and lines: directives between the lines
    lines = text.split("\n")
    named = how == "lcc" or r.random() < 0.6
    cur, num = (fname, 1) if named else ("", 1)
    out, where = [], {}
    if named and how == "rcc":
        num = r.choice([1, 1, 1, 100, 32000])
        out.append('# %d "%s"' % (num, cur))
    many = r.random() < 0.4
    for i, l in enumerate(lines, 1):
        if many and i > 1 and r.random() < 0.25:
            num += r.choice([50, 1000, 7])
            if cur and r.random() < 0.5:
                out.append(r.choice(["#line %d", "# %d"] if how == "rcc" else ["#line %d", "# line %d"]) % num)
            else:
                cur = r.choice(["y.h", "sub/z.c", cur or "y.h", "inc%d.h" % i])
                if cur == "inc%d.h" % i:
                    num = r.choice([1, 1, 2])
                else:
                    num += max([n for f, n in where if f == cur] or [0])
                out.append(r.choice(['#line %d "%s"', '# %d "%s"', '#  line  %d  "%s"  '] if how == "rcc" else ['#line %d "%s"', '# line %d "%s"']) % (num, cur))
        where[cur, num] = i
        where.setdefault((cur, num - 1), i)      # (the end of the file, right after a directive)
        num += 1
        out.append(l)
    text = "\n".join(out)
    opts = r.choice([[], [], [], ["-A"], ["-A", "-A"], ["-g"], ["-w"]])
    wd = scratch("stat")
    try:
        with open(wd + "/t.c", "w") as f:
            f.write(text)
        d = crun.EXE["cc", kind]
        if how == "rcc":
            rc, so, se = crun.sh([d + "/q3rcc", "-target=bytecode", *opts, "t.c", "t.asm"], wd)
        else:
            rc, so, se = crun.sh([d + "/lcc", "-S", "-Wf-target=bytecode", *opts, "-o", "t.asm", "t.c"], wd)
        errs, crash = [], ""
        for l in se.splitlines():
            m = re.match(r"(?:[^:]*: )?(?:([^:]*):)?(\d+): (.*)", l)      # (the first file's name precedes another's)
            if m and not m.group(3).startswith("warning:"):
                errs.append(where.get((m.group(1) or "", int(m.group(2))), 0))
        if rc == -99:
            crash = "hang"
        elif rc < 0 or rc == 126 or rc > 100 or "AddressSanitizer" in se or "runtime error" in se or "fatal error" in se:
            crash = "crash: %d %s" % (rc, " / ".join(l for l in se.splitlines() if "rror" in l or "ssert" in l)[-300:])
        elif rc == 0 and not os.path.exists(wd + "/t.asm"):
            crash = "no output"
        case.update(rc=1 if rc else 0, errs=errs[:5], crash=crash)
        return case, text, se
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def job(a):
    return one(*a)


def main_():
    pid = sys.argv[1]
    crun.setup()
    n = SIZE[pid][0 if QUICK else 1]
    only = [int(x) for x in os.environ.get("ONLY", "").split()] or range(n)
    with multiprocessing.Pool(8) as ex:
        got = ex.map(job, [(pid, k) for k in only], chunksize=16)
    items = [g[0] for g in got]
    text = {g[0]["name"]: g[1] + "--\n" + g[2] for g in got}
    log("%s: %d units compiled" % (pid, len(items)))

    def again(it):
        crun.TMO = 120
        return one(pid, int(it["name"].split("-")[1]))[0]
    return acc.decide(pid, "CStatic", items, again, RULE, invs=["Sane"],
                      assumptions=["TLC evaluates the specification correctly", "units of the generated form (see DESIGN.md)"],
                      cov=dict(builds=["gcc -O0", "gcc -O1 with AddressSanitizer"]), describe=lambda it: text[it["name"]])


if __name__ == "__main__":
    main(main_)
