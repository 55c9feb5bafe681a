"""Run VM cases on builds of the real library and check the logs with TLC."""
import json, os, re, subprocess, shutil
from vl import *

CC = {  # name -> (compiler command, Debug)
    "goto-O2": (["gcc", "-O2"], False),
    "goto-O0": (["gcc", "-O0"], False),
    "goto-O3": (["gcc", "-O3"], False),
    "switch-O2": (["gcc", "-O2", "-include", VERIF + "/harness/nogcc.h"], False),
    "switch-O0": (["gcc", "-O0", "-include", VERIF + "/harness/nogcc.h"], False),
    "clang-O2": (["clang", "-O2"], False),
    "asan": (["gcc", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], False),
    "debug-O0": (["gcc", "-O0", "-DDEBUG_VM"], True),
    "debug-O2": (["gcc", "-O2", "-DDEBUG_VM"], True),
    "debug-asan": (["gcc", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-DDEBUG_VM"], True),
}


def harness(name):
    cc, dbg = CC[name]
    vm = REPO + "/src/vm/vm.c"
    inc = ["-I" + REPO + "/src/vm", "-w"]
    h = VERIF + "/harness/vmh.c"
    hc = cc[:2] if "-include" in cc else cc
    cmds = [[cc + inc + ["-c", "-o", "{out}/vm.o", vm], hc + inc + ["-c", "-o", "{out}/vmh.o", h]],
            hc + ["-o", "{out}/vmh", "{out}/vm.o", "{out}/vmh.o"]]
    d = build("vmh-" + name, [vm, REPO + "/src/vm/vm.h", h], cmds)
    return d + "/vmh"


ENV = dict(os.environ, ASAN_OPTIONS="symbolize=0:detect_leaks=0:abort_on_error=1:handle_segv=0:handle_sigfpe=0:handle_abort=0:"
           "detect_stack_use_after_return=0:allocator_may_return_null=1:replace_intrin=0")


def run_variant(cases, variant, place="R", paint=0xA5, tmo=None, shards=8):
    """Logs of all cases (list of event lists)."""
    wd = scratch("vm")
    n = len(cases)
    if tmo is None:
        tmo = 100000 if "asan" in variant or "O0" in variant else 40000
    shards = max(1, min(shards, n // 4))
    ps = []
    exe = harness(variant)
    try:
        for k in range(shards):
            part = cases[k * n // shards:(k + 1) * n // shards]
            with open("%s/c%d" % (wd, k), "w") as f:
                for c in part:
                    f.write(c.text())
            ps.append((len(part), subprocess.Popen([exe, "c%d" % k, "o%d" % k, place, str(paint), str(tmo)], cwd=wd, env=ENV,
                                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        logs = []
        for k, (m, p) in enumerate(ps):
            p.wait(600)
            if p.returncode != 0:
                raise ToolError("harness %s failed: %d" % (variant, p.returncode))
            with open("%s/o%d" % (wd, k)) as f:
                part = [json.loads(x) for x in f]
            if len(part) != m:
                raise ToolError("harness %s: %d logs for %d cases" % (variant, len(part), m))
            logs += part
    finally:
        for _, p in ps:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(wd, ignore_errors=True)
    return logs


CFG = """SPECIFICATION Spec
CONSTANT POISON = POISON
CONSTANT Debug = %s
INVARIANT TypeOK
INVARIANT Conforms
INVARIANT Safe
VIEW View
ALIAS Shown
CHECK_DEADLOCK TRUE
"""

PROFCFG = CFG.replace("Spec\n", "PSpec\n").replace("VIEW", "INVARIANT Traced\nINVARIANT Attributed\nVIEW").replace("Shown", "PShown")


def check_logs(items, debug=False, maxsteps=3000, module="VMConf", cfg=CFG, timeout=700, alts=None):
    """items: list of (case, log, [variants]).  Returns (tlc result, bad item or None, stats)."""
    wd = scratch("vmtlc")
    fn = wd + "/cases.ndjson"
    with open(fn, "w") as f:
        for c, lg, nm in items:
            o = c.obj()
            o["log"] = lg
            if hasattr(c, "split"):
                o["log"], o["tr"] = c.split(lg)
            o["alts"] = (alts or {}).get(c.id, []) if alts and alts[0] in nm else []
            f.write(json.dumps(o, separators=(",", ":")) + "\n")
    try:
        r = tlc(module, cfg % ("TRUE" if debug else "FALSE"), env=dict(CASES=fn, MAXSTEPS=str(maxsteps)), timeout=timeout, workers=os.environ.get('W','auto'))
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    bad = None
    st = dict(unspec=len(re.findall(r'^<<"unspec", ', r.out, re.M)), done=len(re.findall(r'^<<"done", ', r.out, re.M)))
    if not r.ok:
        m = re.findall(r"case = (\d+)", r.out)
        bad = items[int(m[-1]) - 1] if m else None
        k = r.out.rfind("\nState ")
        r.trace = (r.invariant or "deadlock") + r.out[k:].split("\n\n")[0][:3000]
        if bad is None:
            raise ToolError("cannot identify the failing case:\n" + tail_nonparse(r.out))
    return r, bad, st


def dedupe(cases, logs_by_variant):
    """One item per distinct log of a case."""
    items = []
    for k, c in enumerate(cases):
        seen = {}
        for v, logs in logs_by_variant:
            key = json.dumps(logs[k])
            seen.setdefault(key, (logs[k], []))[1].append(v)
        for lg, vs in seen.values():
            items.append((c, lg, vs))
    return items


def conform(pid, cases, variants, maxsteps=3000, rule="", level="model_checking", assumptions=(), extra_cov=None,
            alts=None, cap=None, **how):
    """The standard check: run all cases on all builds (variants: build,
    placement, paint) and let TLC decide whether every recorded log is a
    behaviour of the specification.  alts: builds whose log must equal that
    of the first variant event by event (also outside the specified world)."""
    states = trans = traces = uns = done = 0
    last = None
    for dbg in (False, True):
        vs = [v for v in variants if CC[v[0]][1] == dbg]
        if not vs:
            continue
        by = [("%s/%s/%02x" % v, run_variant(cases, *v)) for v in vs]
        items = dedupe(cases, by)
        al = None
        if alts and not dbg:
            al = {0: "%s/%s/%02x" % vs[0]}
            for v in alts:
                lg = run_variant(cases, *v)
                for k, c in enumerate(cases):
                    if not any(e[0] in (10, 11) for e in (by[0][1][k][-1:] + lg[k][-1:])):
                        al.setdefault(c.id, []).append(lg[k])
        log("%s: %d cases, %d builds, %d distinct logs%s" % (pid, len(cases), len(vs), len(items), " (debug)" if dbg else ""))
        while items:
            r, bad, st = check_logs(items, dbg, maxsteps, alts=al, **how)
            if bad is None:
                break
            # confirm on a fresh run of that case alone
            c, lg, names = bad
            b, pl, pa = names[0].split("/")
            lg2 = run_variant([c], b, pl, int(pa, 16), tmo=3000000)[0]
            al2 = {0: al[0], c.id: [run_variant([c], *v, tmo=3000000)[0] for v in alts]} if al else None
            r2, bad2, _ = check_logs([(c, lg2, names)], dbg, maxsteps, alts=al2, **how)
            if bad2 is not None:
                break
            if lg[-1][0] == 10:
                log("%s: time limit on %s, but completes alone" % (pid, c.id))
                items = [(c, lg2, names) if x is bad else x for x in items]
                continue
            raise ToolError("rejection of case %s did not repeat: %s" % (c.id, json.dumps(lg)[:3000]))
        log("%s: TLC %d states in %.1fs, done %d, unspecified %d" % (pid, r.distinct, r.wall, st["done"], st["unspec"]))
        states += r.distinct
        trans += r.states
        traces += len(items)
        uns += st["unspec"]
        done += st["done"]
        last = items[-1] if items else last
        if bad is not None:
            p = replay_path(pid, c.id + ".json")
            with open(p, "w") as f:
                json.dump(dict(property=pid, case=c.obj(), script=c.text(), builds=names, log=lg, rejected=r.trace), f)
            print(r.trace)
            violation(pid, p)
            cov = dict(states=max(states, 1), transitions=max(trans, 1), traces_validated_against_impl=traces,
                       samples=[c.text()[:500]])
            evidence(pid, level, cov, assumptions, 1)
            return 1
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=traces,
               samples=[c.text()[:600] for c in cases[:2]] + [json.dumps(last[1])[:600]],
               cases=len(cases), builds=["%s/%s/%02x" % v for v in variants], completed=done,
               left_specified_world=uns, rule=rule)
    cov.update(extra_cov or {})
    evidence(pid, level, cov, assumptions, 0)
    return 0
