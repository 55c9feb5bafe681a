"""Shared machinery: building from /repo, running TLC, evidence, verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, time, glob, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
QUICK = TIER != "thorough"
BUILD = os.path.join(VERIF, ".build")
TLA = "/opt/veriftools/tla"
JARS = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


# ---------------------------------------------------------------- building
def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        for f in sorted(glob.glob(p, recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0")
                with open(f, "rb") as fd:
                    h.update(fd.read())
    return h.hexdigest()[:20]


def prune_builds(keep=12):
    try:
        ds = sorted((d for d in glob.glob(BUILD + "/*") if os.path.isdir(d)), key=os.path.getmtime)
        for d in ds[:-keep]:
            if time.time() - os.path.getmtime(d) > 600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(name, sources, cmds, watch=None, extra=""):
    """Run cmds (lists; {out} is the build dir) unless already built from the
    same sources.  Returns the directory."""
    h = tree_hash((watch or []) + sources, extra + repr(cmds))
    d = os.path.join(BUILD, name + "-" + h)
    if os.path.exists(d + "/.ok"):
        os.utime(d)
        return d
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=name + ".tmp", dir=BUILD)
    procs = []
    try:
        for stage in cmds:
            stage = stage if isinstance(stage[0], list) else [stage]
            run = []
            for c in stage:
                c = [x.replace("{out}", tmp) for x in c]
                run.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)))
            for c, p in run:
                o = p.communicate(timeout=600)[0]
                if p.returncode:
                    raise ToolError("build failed: %s\n%s" % (" ".join(c), o.decode("latin-1")[-3000:]))
        open(tmp + "/.ok", "w").close()
        try:
            os.rename(tmp, d)
        except OSError:
            if not os.path.exists(d + "/.ok"):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    prune_builds(40)
    return d


def scratch(tag):
    os.makedirs(BUILD + "/run", exist_ok=True)
    return tempfile.mkdtemp(prefix=tag + "-", dir=BUILD + "/run")


# ---------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(module, cfg, env=None, timeout=700, workers="auto", deque=True, extra=(), heap="6g", tag="tlc", simulate=None):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    wd = scratch(tag)
    try:
        with open(wd + "/" + module + ".cfg", "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        jopt = ["-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=" + VERIF + "/spec"]
        if deque:
            jopt.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd = ["java"] + jopt + ["-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", wd + "/meta",
                                "-noGenerateSpecTE", "-config", wd + "/" + module + ".cfg"] + list(extra)
        cmd.append(VERIF + "/spec/" + module + ".tla")
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=wd)
        except subprocess.TimeoutExpired as ex:
            raise ToolError("TLC timed out: " + module + "\n" + (ex.stdout or b"").decode("latin-1")[-2000:])
        o = p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    r = TlcResult()
    r.out, r.rc, r.wall = o, p.returncode, time.time() - t
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
    r.states = int(m.group(1).replace(",", "")) if m else 0
    r.distinct = int(m.group(2).replace(",", "")) if m else 0
    m = re.search(r"Invariant (\w+) is violated", o)
    r.invariant = m.group(1) if m else None
    if r.invariant is None:
        m = re.search(r"(?:Action|Temporal) propert\w* (?:of )?(\w+)?.* (?:is|were) violated", o)
        r.invariant = (m.group(1) or "property") if m else None
    r.ok = "Model checking completed. No error has been found" in o and p.returncode == 0
    if not r.ok and r.invariant is None:
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, tail_nonparse(o)))
    return r


def tail_nonparse(o, n=6000):
    ls = [x for x in o.splitlines() if not x.startswith(("Parsing", "Semantic", "Linting"))]
    return "\n".join(ls)[-n:]


def alias_field(out, name):
    """Last value printed for an ALIAS field in a TLC error trace."""
    v = re.findall(r"^/?\\?\s*(?:/\\ )?%s = (.*)$" % name, out, re.M)
    return v[-1].strip() if v else None


# ---------------------------------------------------------------- verdicts
def evidence(pid, level, coverage, assumptions=(), violations=0):
    d = dict(property=pid, tier="quick" if QUICK else "thorough", seed=SEED, level=level, coverage=coverage,
             assumptions=list(assumptions), wall_s=round(time.time() - T0, 2), violations=violations)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    p = VERIF + "/evidence/%s.json" % pid
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.rename(p + ".tmp", p)


def replay_path(pid, name):
    d = VERIF + "/evidence/replay"
    os.makedirs(d, exist_ok=True)
    return "%s/%s-%s" % (d, pid, name)


def violation(pid, path):
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)


def main(f):
    try:
        rc = f()
    except ToolError as e:
        print("ERROR:", e, flush=True)
        rc = 3
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout", e, flush=True)
        rc = 3
    sys.exit(rc)


def known_open(pid):
    """keys of the open findings of a property in known-findings.txt -> text"""
    out = {}
    with open(VERIF + "/known-findings.txt") as f:
        for l in f:
            m = re.match(r"open: property=(\S+) (\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def known_finding(pid, what):
    print("KNOWN-FINDING: property=%s %s" % (pid, what), flush=True)
