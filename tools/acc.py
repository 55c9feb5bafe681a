"""Acceptor runs: TLC decides for a list of (input, observation) records
whether each is a behaviour of a specification module."""
import json, re, shutil, os
from vl import *

CFG = """SPECIFICATION Spec
INVARIANT Conforms
%s
VIEW View
ALIAS Shown
CHECK_DEADLOCK TRUE
"""


def accept(module, items, env=None, invs=(), consts="", timeout=800, heap="8g"):
    """(tlc result, index of the rejected item or None)"""
    wd = scratch("acc")
    fn = wd + "/cases.ndjson"
    with open(fn, "w") as f:
        for o in items:
            f.write(json.dumps(o, separators=(",", ":")) + "\n")
    e = dict(CASES=fn)
    e.update(env or {})
    try:
        r = tlc(module, CFG % "\n".join(["INVARIANT " + i for i in invs]) + consts, env=e, timeout=timeout, heap=heap)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    bad = None
    m = re.search(r'^<< ?"reject",\s+(\d+),', r.out, re.M)
    if m:
        bad = int(m.group(1)) - 1
        r.trace = "rejected:\n" + r.out[m.start():m.start() + 4000]
    elif not r.ok:
        m = re.findall(r"\bcase = (\d+)", r.out)
        if not m:
            raise ToolError("cannot identify the failing case:\n" + tail_nonparse(r.out))
        bad = int(m[-1]) - 1
        k = r.out.rfind("\nState ")
        r.trace = (r.invariant or "deadlock") + r.out[k:].split("\n\n")[0][:6000]
    r.tags = {}
    for t in re.findall(r'^<<"(\w+)", ', r.out, re.M):
        r.tags[t] = r.tags.get(t, 0) + 1
    return r, bad


def decide(pid, module, items, rerun, rule, env=None, invs=(), level="model_checking", assumptions=(), cov=None, chunk=5000,
           describe=None, heap="8g", consts=""):
    """Standard verdict: accept all items, confirm a rejection on a fresh run."""
    states = trans = 0
    tags = {}
    rc = 0
    for k in range(0, len(items), chunk):
        part = items[k:k + chunk]
        r, bad = accept(module, part, env, invs, consts, heap=heap)
        states += r.distinct
        trans += r.states
        for t, n in r.tags.items():
            tags[t] = tags.get(t, 0) + n
        if bad is not None:
            it = part[bad]
            it2 = rerun(it)
            r2, bad2 = accept(module, [it2], env, invs, consts, heap=heap)
            if bad2 is None:
                raise ToolError("rejection did not repeat: " + json.dumps(it)[:3000])
            p = replay_path(pid, "case.json")
            with open(p, "w") as f:
                json.dump(dict(property=pid, module=module, case=it2, rejected=r2.trace), f)
            print(r2.trace)
            if describe:
                print(describe(it2))
            violation(pid, p)
            rc = 1
            break
    log("%s: %d cases, TLC %d states, %s" % (pid, len(items), states, tags))
    c = dict(states=max(states, 1), transitions=max(trans, 1), traces_validated_against_impl=len(items),
             samples=[json.dumps(x)[:600] for x in items[:2] + items[-1:]], cases=len(items), outcomes=tags, rule=rule)
    c.update(cov or {})
    evidence(pid, level, c, assumptions, rc)
    return rc
