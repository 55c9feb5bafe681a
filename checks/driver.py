#!/usr/bin/env python3
"""Check of the compiler driver: checks/driver.py L08"""
import os, sys, random, re, shutil, signal, stat, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vl import *
import acc, crun, drvgen, lccgen, ctext, toolchain

NCMD, NPROG = (900, 420) if QUICK else (12000, 6000)
RULE = ("command lines run by the real driver with recording stand-ins for the phases, and whole compilations of generated programs under random option "
        "sets; non-trivial: a command line that runs phases, a program whose output is determined")
STUB = r"""#!/bin/sh
read n < "$STUBDIR/count"
n=$((n+1))
echo $n > "$STUBDIR/count"
for a in "$0" "$@"; do printf '%s\001' "$a"; done >> "$STUBDIR/log"
printf '\002' >> "$STUBDIR/log"
for a in "$0" "$@"; do last=$a; done
case "$last" in -*) ;; *.c) ;; *) [ -e "$last" ] || echo made > "$last" ;; esac
set -- `cat "$STUBDIR/stats"`
shift $((n-1))
case "$1" in
kill) kill -9 $$ ;;
term) kill -TERM $PPID; exit 0 ;;
"") exit 0 ;;
*) exit $1 ;;
esac
"""


def stubs(wd, d):
    """(hard links: a freshly written program may still be open in a child of another thread)"""
    os.makedirs(wd + "/" + d, exist_ok=True)
    out = []
    for n in ("q3cpp", "q3rcc", "rcc"):
        os.link(TEMPLATE, wd + "/" + d + "/" + n)
        out.append(d + "/" + n)
    return out


TEMPLATE = None


def cmdcase(k, tmo=20):
    r = random.Random("L08-%d-%d" % (SEED, k))
    c = drvgen.case(r, k)
    wd = scratch("drv")
    try:
        progs = []
        for d in c["dirs"] + ["bin"]:
            progs += stubs(wd, d)
        progs += ["bin/q3cpp", "bin/q3rcc"]
        os.symlink(toolchain.compiler("asan" if k % 2 else "O0") + "/lcc", wd + "/bin/lcc")
        for d in ("tmp1", "tmp2", "tmp3", "sub", "stub"):
            os.mkdir(wd + "/" + d)
        for f in c["files"]:
            with open(wd + "/" + f, "w") as h:
                h.write("x\n")
        with open(wd + "/stub/count", "w") as h:
            h.write("0\n")
        with open(wd + "/stub/stats", "w") as h:
            h.write("\n".join(c["stats"]) + "\n")
        open(wd + "/stub/log", "w").close()
        env = {k2: v for k2, v in os.environ.items() if k2 not in ("TMP", "TEMP", "TMPDIR", "LCCDIR", "LCCINPUTS")}
        env.update(c["env"], STUBDIR=wd + "/stub", ASAN_OPTIONS="detect_leaks=0:exitcode=97")
        crash = ""
        try:
            q = subprocess.run(["bin/lcc"] + c["argv"], cwd=wd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo, env=env,
                               preexec_fn=lambda: signal.signal(signal.SIGTERM, signal.SIG_DFL))
            err, rc = q.stderr.decode("latin-1"), q.returncode
            if rc < 0:
                crash = "ended by signal %d" % -rc
            elif "AddressSanitizer" in err and "SUMMARY" in err:
                crash = "memory error: " + " ".join(x for x in err.split("\n") if "ERROR: Add" in x or "#0" in x or "#1" in x)[:300]
        except subprocess.TimeoutExpired:
            rc, crash = 0, "does not end"
        ev = []
        for e in open(wd + "/stub/log", encoding="latin-1").read().split("\2")[:-1]:
            a = e.split("\1")[:-1]
            ev.append(dict(path=a[0], args=a[1:]))
        left = [d + "/" + f for d in ("tmp1", "tmp2", "tmp3") for f in os.listdir(wd + "/" + d)]
        env0 = c["env"]
        tmp = env0.get("TMP") or env0.get("TEMP") or env0.get("TMPDIR")
        argv = c["argv"]
        if "LCCDIR" in env0:
            argv = ["-Wo-lccdir=" + env0["LCCDIR"]] + argv if argv else argv
        return dict(name="cmd-%d" % k, argv=argv, files=c["files"], progs=progs, stats=["-1" if s == "kill" else s for s in c["stats"]], bin="bin/", tmp=tmp,
                    events=ev, rc=abs(rc), crash=crash, left=left)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


# ------------------------------------------------------- whole compilations
def macros(r, texts):
    """replaces a few numbers by macros: -> texts, [(name, value)] per text"""
    out, defs = [], []
    for i, t in enumerate(texts):
        ls, d = t.split("\n"), []
        for _ in range(r.choice([0, 1, 2, 4])):
            cand = [(j, m) for j, l in enumerate(ls) if not re.search(r"[\"'#]|/\*|\*/", l) for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", l)]
            if not cand:
                break
            j, m = r.choice(cand)
            n = "M%d_%d" % (i, len(d))
            d.append((n, m.group(0)))
            ls[j] = ls[j][:m.start()] + n + ls[j][m.end():]
        out.append("\n".join(ls))
        defs.append(d)
    return out, defs


def progcase(k, tmo=None):
    r = random.Random("L08p-%d-%d" % (SEED, k))
    for _ in range(20):
        try:
            p = lccgen.programs(r.choice(["L01", "L02", "L02", "L03", "L04", "L05", "L05", "L06"]), r, 1)[0]
        except AssertionError as e:
            if "no value" in str(e):
                continue
            raise
        break
    p.name = "prog-%d" % k
    texts = ctext.Text(p, r, r.choice([0, .5, 1])).texts()
    texts, defs = macros(r, texts)
    wd = scratch("drv")
    show = []
    try:
        d = crun.EXE["cc", "asan" if k % 4 == 1 else "O0"]
        cwd = r.choice([wd, wd, wd + "/work"])
        os.makedirs(wd + "/work")
        os.makedirs(wd + "/inc")
        os.makedirs(wd + "/tmp")
        up = "" if cwd == wd else "../"
        env = dict(TMP=wd + "/tmp")
        exe = d + "/lcc"
        opts = []
        for o in (["-g"], ["-A"], ["-A", "-A"], ["-w"], ["-P"], ["-v"], ["-O"], ["-c"], ["-S"], ["-d" + r.choice(["0.1", "0.9", "1", "0.3"])], ["-N"], ["-target", "x"],
                  ["-Wf-g2"], ["-Wo-g"], ["-DUNUSED"], ["-UUNUSED"], ["-I" + up + "nowhere"]):
            if r.random() < .15:
                opts += o
        if r.random() < .2:
            w = r.randrange(3)
            if w == 0:
                opts += ["-Wo-lccdir=" + d]
            elif w == 1:
                env["LCCDIR"] = d
            else:
                opts += ["-Wo-lcppdir=" + d, "-Wo-lrccdir=" + d]
        names = ["f%d" % i for i in range(len(texts))]
        files = {}
        for i, t in enumerate(texts):
            for n, v in defs[i]:
                w = r.randrange(6)
                if w == 0:
                    opts.append("-D%s=%s" % (n, v))
                elif w == 1:
                    opts += ["-D" + n, "-U" + n, "-Wp-D%s=%s" % (n, v)]
                elif w == 2:
                    t = "#define %s %s\n" % (n, v) + t
                elif w == 3:
                    files[n + ".h"] = "#define %s %s\n" % (n, v)
                    t = '#include "%s.h"\n' % n + t
                elif w == 4:
                    files["inc/" + n + ".h"] = "#ifndef G_%s\n#define G_%s\n#define %s (%s)\n#endif\n" % (n, n, n, v) if r.random() < .5 else "#define %s %s" % (n, v)
                    t = "#include <%s.h>\n" % n + t
                    # directories start from that of the main file
                    opts.append("-I" + r.choice([wd + "/inc", "inc", "./inc", "tmp/../inc"]))
                else:
                    opts += ["-DOTHER_%s=%s" % (n, v)]
                    t = "#ifdef OTHER_%s\n#define %s OTHER_%s\n#endif\n" % (n, n, n) + t
            files[names[i] + ".c"] = t
        for f, t in files.items():
            with open(wd + "/" + f, "w", encoding="latin-1") as h:
                h.write(t)
        mode = r.choice(["one", "one", "each", "each", "E", "E"])
        why = ""

        def go(args, out=None):
            nonlocal why
            if why:
                return
            show.append(" ".join(["lcc"] + args))
            rc, so, se = crun.sh([exe] + args, cwd, tmo, **env)
            if out:
                with open(out, "w", encoding="latin-1") as h:
                    h.write(so)
            if rc:
                err = [l for l in se.splitlines() if "warning" not in l and "ignored" not in l]
                why = "compiler: %d %s" % (rc, " / ".join(err)[:300])

        fopts = opts
        if mode == "one":
            go(fopts + [up + n + ".c" for n in names] if r.random() < .5 else [up + n + ".c" for n in names] + fopts)
            obj = [cwd + "/" + n + ".asm" for n in names]
        elif mode == "each":
            obj = []
            for n in names:
                o = r.choice([n + ".asm", "o_" + n + ".asm", up + "o." + n])
                obj.append(cwd + "/" + o)
                if o == n + ".asm" and r.random() < .5:
                    go(fopts + [up + n + ".c"])
                else:
                    go(fopts + ["-o", o, up + n + ".c"])
        else:
            obj = []
            for n in names:
                go([o for o in fopts if o not in ("-P",)] + ["-E", up + n + ".c"], cwd + "/e_" + n + ".i")
                obj.append(cwd + "/e_" + n + ".asm")
            if r.random() < .5:
                go(fopts + ["e_" + n + ".i" for n in names])
            else:
                for n in names:
                    go(fopts + ["e_" + n + ".i"])
        case = p.case()
        stopped, obs = False, [0]
        if not why and os.listdir(wd + "/tmp"):
            why = "temporary files left: " + " ".join(os.listdir(wd + "/tmp"))[:200]
        if not why:
            for i, o in enumerate(obj):
                if not os.path.exists(o):
                    why = "no output " + os.path.relpath(o, cwd)
                    break
                shutil.copy(o, wd + "/r%d.asm" % i)
        if not why:
            with open(wd + "/calls.asm", "w") as f:
                f.write(crun.CALLS)
            rc, so, se = crun.sh([crun.EXE["asm"], "-o", "image"] + ["r%d.asm" % i for i in range(len(obj))] + ["calls.asm"], wd, tmo)
            if rc or not os.path.exists(wd + "/image.qvm"):
                why = "assembler: %d %s" % (rc, (so + se)[:300])
            else:
                why, stopped, obs = crun.run(wd, "image.qvm", case["args"])
        case.update(why=why, stopped=stopped, obs=obs)
        return case, "\n".join(show) + "\n" + "\n/* next file */\n".join("/* %s */\n%s" % f for f in files.items())
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main_():
    global TEMPLATE
    pid = sys.argv[1]
    crun.setup()
    os.makedirs(BUILD, exist_ok=True)
    TEMPLATE = scratch("stub") + "/stub"
    with open(TEMPLATE, "w") as h:
        h.write(STUB)
    os.chmod(TEMPLATE, 0o755)
    only = os.environ.get("ONLY", "").split()
    kc = [int(x) for x in only] or range(NCMD)
    kp = [int(x) for x in os.environ.get("ONLYP", "").split()] or range(NPROG)
    with ThreadPoolExecutor(8) as ex:
        cmds = list(ex.map(cmdcase, kc))
        log("L08: %d command lines run" % len(cmds))
        got = list(ex.map(progcase, kp))
    progs = [g[0] for g in got]
    text = {g[0]["name"]: g[1] for g in got}
    log("L08: %d programs compiled and run" % len(progs))
    num = lambda it: int(it["name"].split("-")[1])

    def again(it):
        crun.TMO = 120
        return progcase(num(it), 120)[0]
    asm = ["TLC evaluates the specification correctly", "programs and command lines of the generated form (see DESIGN.md)"]
    if os.environ.get("NODRV"):
        return acc.decide(pid, "CSem", progs, again, RULE, describe=lambda it: text[it["name"]])
    rc = acc.decide(pid, "Driver", cmds, lambda it: cmdcase(num(it), 60), RULE, invs=("Sane",), assumptions=asm)
    with open(VERIF + "/evidence/%s.json" % pid) as f:
        first = json.load(f)["coverage"]
    if not rc:
        rc = acc.decide(pid, "CSem", progs, again, RULE, assumptions=asm, describe=lambda it: text[it["name"]],
                        cov=dict(builds=["gcc -O0", "gcc -O1 with AddressSanitizer"], command_lines=dict(cases=first["cases"], states=first["states"], outcomes=first["outcomes"])))
    shutil.rmtree(os.path.dirname(TEMPLATE), ignore_errors=True)
    return rc


main(main_)
