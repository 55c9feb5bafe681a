#!/usr/bin/env python3
"""Checks of the compiler: checks/lcc.py L01 ... L06, L09"""
import os, sys, random, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vl import *
import acc, crun, lccgen, ctext

SIZE = dict(L01=(800, 4000), L02=(700, 4000), L03=(900, 5000), L04=(700, 4000), L05=(900, 5000), L06=(800, 4000), L09=(700, 4000))
RULE = ("random typed C programs (syntax trees) written as text with random spelling, compiled by lcc, assembled and run; "
        "non-trivial: a program whose whole output is determined and compared word for word")


# what a traced program calls: names the function by its number, gives the scalar values, not those of pointers and inside of structures
STUB = r"""
extern int out(int);
static char *names[] = { %s 0 };
static int index(const char *s, int n) {
    int i, j;
    for (i = 0; names[i]; i++) {
        for (j = 0; j < n && names[i][j] == s[j]; j++) ;
        if (j == n && names[i][j] == 0) return i + 1;
    }
    return 0;
}
int trc(const char *f, ...) {
    int *ap = (int *)(&f) + 1, n, depth = 0;
    const char *p = f;
    while (*p && *p != '#') p++;
    n = index(f, p - f);
    if (p[0] == '#' && p[1] == '0' && p[2] == 'x' && p[3] == '%%' && p[4] == 'd' && p[5] == '(') { out(1000000 + n); p += 5; }
    else if (p[0] == '#' && p[1] == '0' && p[2] == 'x' && p[3] == '%%' && p[4] == 'd' && p[5] == ' ' && p[6] == 'r') { out(2000000 + n); p += 5; }
    else { out(3000000); return 0; }
    out(*ap++);
    for (; *p; p++) {
        if (*p == '{') depth++;
        if (*p == '}') depth--;
        if (*p == '%%') {
            int v = *ap++, len = 1;
            while (p[len] == '.' || (p[len] >= '0' && p[len] <= '9')) len++;
            if (depth == 0 && p[len] != 's' && !(p[-1] == 'x' && p[-3] == ')') && !(p[len + 1] == ' ' && p[len + 2] == '"')) out(v);
        }
    }
    return 0;
}
void _YYnull(char *f, int n) { out(777777); }
"""


def make(pid, k):
    if pid == "L09":
        r = random.Random("%s-%d-%d" % (pid, SEED, k))
        lccgen.SELFREC[0] = ctext.LONGPARAMS[0] = True
        case, files, how, kind = make(r.choice(["L04", "L04", "L04", "L02", "L03", "L05", "L06"]), 100000 + k)
        case["name"] = "%s-%d" % (pid, k)
        opts = r.choice([["-ttrc"], ["-ttrc"], ["-ttrc", "-n"], ["-n"], ["-n", "-g"], ["-ttrc", "-g"]])
        case["trace"] = "-ttrc" in opts
        return case, files, how, kind, opts, STUB % "".join('"%s", ' % f["name"] for f in case["funcs"])
    r = random.Random("%s-%d-%d" % (pid, SEED, k))
    for _ in range(20):
        try:
            p = lccgen.programs(pid, r, 1)[0]
        except AssertionError as e:
            if "no value" in str(e):
                continue
            raise
        break
    p.name = "%s-%d" % (pid, k)
    t = ctext.Text(p, r, r.choice([0, .5, 1, 1]))
    files = t.texts()
    how, kind = ("lcc", "O0") if k % 5 == 0 else ("rcc", "asan") if k % 5 == 1 else ("rcc", "O0")
    return p.case(), files, how, kind


def one(pid, k):
    case, files, how, kind, *more = make(pid, k)
    wd = scratch("lcc")
    try:
        names = ["f%d" % i for i in range(len(files))]
        for n, t in zip(names, files):
            with open(wd + "/%s.c" % n, "w", encoding="latin-1") as f:
                f.write(t)
        if more:
            with open(wd + "/stub.c", "w") as f:
                f.write(more[1])
            why, stopped, obs = crun.observe(wd, names + ["stub"], case["args"], how, kind, more[0], ["stub"])
            if "currentArgOffset" in why:       # a trace of too many values for one call: more than the assembler takes
                case["trace"] = False
                why, stopped, obs = crun.observe(wd, names + ["stub"], case["args"], how, kind, ["-n"], ["stub"])
        else:
            why, stopped, obs = crun.observe(wd, names, case["args"], how, kind)
        case.update(why=why, stopped=stopped, obs=obs)
        return case, files
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def same_name_statics():
    """two files with a static object of the same name: "" when they work, else what happened"""
    wd = scratch("lcc")
    try:
        for n, t in [("f0", "int out(int); int other(void); static int d = 5; int vmMain(void) { out(d); out(other()); d = 6; return other(); }\n"),
                     ("f1", "static int d = 7; int other(void) { return d++; }\n")]:
            with open(wd + "/%s.c" % n, "w") as f:
                f.write(t)
        why, stopped, obs = crun.observe(wd, ["f0", "f1"], [])
        if "Multiple definitions for d" in why:
            return "multiple"
        return "" if (why, stopped, obs) == ("", False, [5, 7, 8]) else "other: %s %s %s" % (why, stopped, obs)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main_():
    pid = sys.argv[1]
    crun.setup()
    n = SIZE[pid][0 if QUICK else 1]
    only = [int(x) for x in os.environ.get("ONLY", "").split()] or range(n)
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(lambda k: one(pid, k), only))
    items = [g[0] for g in got]
    text = {g[0]["name"]: g[1] for g in got}
    log("%s: %d programs compiled and run" % (pid, len(items)))
    if pid == "L05":
        w = same_name_statics()
        op = known_open(pid)
        if w == "multiple" and "same-name-statics" in op:
            known_finding(pid, op["same-name-statics"])
        elif w:
            p = replay_path(pid, "statics.txt")
            with open(p, "w") as f:
                f.write("two files with a static object of the same name: " + w + "\n")
            violation(pid, p)
            return 1

    def again(it):
        crun.TMO = 120
        return one(pid, int(it["name"].split("-")[1]))[0]
    return acc.decide(pid, "CSem", items, again, RULE,
                      assumptions=["TLC evaluates the specification correctly", "programs of the generated form (see DESIGN.md)"],
                      cov=dict(builds=["gcc -O0", "gcc -O1 with AddressSanitizer"]), describe=lambda it: "\n/* next file */\n".join(text[it["name"]]))


main(main_)
