"""Builds the toolchain (q3asm, cpp, rcc, lcc, lburg, q3vm) from /repo's sources."""
import glob, os
from vl import *

SAN = ["-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
OPT = ["-O2", "-w"]
LCC = REPO + "/lcc"


def flags(kind):
    return ["gcc", "-w", "-fcommon"] + (SAN if kind == "asan" else ["-" + kind])


def q3asm(kind="O2"):
    s = [REPO + "/q3asm/q3asm.c", REPO + "/q3asm/cmdlib.c"]
    d = build("q3asm-" + kind, s, [flags(kind) + ["-o", "{out}/q3asm"] + s], watch=[REPO + "/q3asm/*.h", REPO + "/src/vm/vm.h"])
    return d + "/q3asm"


def q3vm(kind="O2"):
    s = [REPO + "/src/main.c", REPO + "/src/vm/vm.c"]
    d = build("q3vm-" + kind, s, [flags(kind) + ["-I" + REPO + "/src/vm", "-o", "{out}/q3vm"] + s + ["-lm"]], watch=[REPO + "/src/vm/*.h"])
    return d + "/q3vm"


def qload():
    h = VERIF + "/harness/qload.c"
    s = [h, REPO + "/src/vm/vm.c"]
    d = build("qload", s, [flags("O2") + ["-I" + REPO + "/src/vm", "-o", "{out}/qload"] + s + ["-lm"]], watch=[REPO + "/src/vm/*.h"])
    return d + "/qload"


def qrun():
    h = VERIF + "/harness/qrun.c"
    s = [h, REPO + "/src/vm/vm.c"]
    d = build("qrun", s, [flags("O2") + ["-I" + REPO + "/src/vm", "-o", "{out}/qrun"] + s + ["-lm"]], watch=[REPO + "/src/vm/*.h"])
    return d + "/qrun"


def compiler(kind="O0"):
    """directory with lcc, q3cpp and q3rcc"""
    out = []
    for name, sub, d in (("q3rcc", "src", "rcc"), ("q3cpp", "cpp", "cpp"), ("lcc", "etc", "etc")):
        s = sorted(glob.glob("%s/%s/*.c" % (LCC, sub)))
        out.append((name, sub, s))
    srcs = [f for x in out for f in x[2]]
    obj = lambda name, f: "{out}/%s-%s.o" % (name, os.path.basename(f))
    c = [flags(kind) + ["-fno-strict-aliasing", "-I" + LCC + "/" + sub, "-c", "-o", obj(name, f), f] for name, sub, s in out for f in s]
    link = [flags(kind) + ["-o", "{out}/" + name] + [obj(name, f) for f in s] + ["-lm"] for name, sub, s in out]
    return build("lcc-" + kind, srcs, [c, link], watch=[LCC + "/*/*.h"])


def lburg(kind="O0"):
    s = [LCC + "/lburg/lburg.c", LCC + "/lburg/gram.c"]
    k = ["gcc", "-w", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if kind == "asan" else ["gcc", "-w", "-" + kind]
    d = build("lburg-" + kind, s, [k + ["-I" + LCC + "/lburg", "-o", "{out}/lburg"] + s], watch=[LCC + "/lburg/*.h"])
    return d + "/lburg"
