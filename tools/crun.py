"""Compiles C sources with the compiler built from /repo, assembles and runs them."""
import os, re, shutil, subprocess
from vl import *
import toolchain

EXE = {}
CALLS = "equ out -1\nequ outu -2\nequ outf -3\n"
TMO = 20


def setup(kinds=("O0", "asan")):
    for k in kinds:
        EXE["cc", k] = toolchain.compiler(k)
    EXE["asm"] = toolchain.q3asm()
    EXE["run"] = toolchain.qrun()


def sh(args, cwd, tmo=None, **env):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=126", TMPDIR=cwd, **env)
    try:
        p = subprocess.run(args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo or TMO, env=e)
        return p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
    except subprocess.TimeoutExpired:
        return -99, "", "timeout"


def compile_(wd, name, how="rcc", kind="O0", opts=()):
    """name.c -> name.asm; -> "" or what went wrong"""
    d = EXE["cc", kind]
    if how == "rcc":
        rc, so, se = sh([d + "/q3rcc", "-target=bytecode", *opts, name + ".c", name + ".asm"], wd)
    else:
        rc, so, se = sh([d + "/lcc", "-DQ3_VM", "-S", "-Wf-target=bytecode", *opts, "-o", name + ".asm", name + ".c"], wd)
    if rc or not os.path.exists(wd + "/" + name + ".asm"):
        err = [l for l in se.splitlines() if "warning" not in l]
        return "compiler: %d %s" % (rc, " / ".join(err)[:300])
    return ""


def observe(wd, names, args, how="rcc", kind="O0", opts=(), plain=()):
    """-> why, stopped, obs"""
    for n in names:
        w = compile_(wd, n, how, kind, () if n in plain else opts)
        if w:
            return w, False, [0]
    with open(wd + "/calls.asm", "w") as f:
        f.write(CALLS)
    rc, so, se = sh([EXE["asm"], "-o", "image"] + [n + ".asm" for n in names] + ["calls.asm"], wd)
    if rc or not os.path.exists(wd + "/image.qvm"):
        return "assembler: %d %s" % (rc, (so + se)[:300]), False, [0]
    return run(wd, "image.qvm", args)


def run(wd, image, args):
    rc, so, se = sh([EXE["run"], image] + [str(a) for a in args], wd)
    obs, stopped = [], True
    for l in so.splitlines():
        if l.startswith("ret "):
            obs.append(int(l[4:]))
            stopped = False
        elif l.startswith("stop"):
            break
        elif l.startswith("o "):
            obs.append(int(l[2:]))
    if stopped:
        obs.append(0)
    return "", stopped, obs
