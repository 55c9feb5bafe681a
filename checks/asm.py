#!/usr/bin/env python3
"""Checks of the assembler properties: checks/asm.py A01 ... A06"""
import hashlib, os, sys, random, re, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vl import *
import toolchain, acc
from asmgen import *

EXE = {}


def run_asm(wd, exe, names, pre=(), out="out", cwd=None, listfile=None):
    """One run in directory wd; -> observation."""
    for x in ("out.qvm", "out.map"):
        if os.path.exists(wd + "/" + x):
            os.unlink(wd + "/" + x)
    args = [exe] + list(pre) + ["-o", out]
    if listfile is not None:
        with open(wd + "/list.q3asm", "w") as f:
            f.write(listfile)
        args += ["-f", "list"]
    else:
        args += names
    try:
        p = subprocess.run(args, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=TMO,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=126"))
        rc, err, so = p.returncode, p.stderr.decode("latin-1"), p.stdout.decode("latin-1")
    except subprocess.TimeoutExpired:
        rc, err, so = -99, "", ""
    img = mp = None
    if os.path.exists(wd + "/out.qvm"):
        img = open(wd + "/out.qvm", "rb").read()
    if os.path.exists(wd + "/out.map"):
        mp = open(wd + "/out.map", encoding="latin-1").read()
    return rc, err, so, img, mp


TMO = 20


def s32(x):
    return x - (1 << 32) if x >> 31 else x


def observe(names, rc, err, so, img, mp):
    diag = []
    for m in re.finditer("(%s):(\\d+) " % "|".join(re.escape(x) for x in names), err):
        d = [names.index(m.group(1)) + 1, int(m.group(2))]
        if d not in diag:
            diag.append(d)
    lines = []
    for l in (mp or "").splitlines():
        m = re.fullmatch(r"(\d) ([ 0-9a-f]{8}) (\S+)", l)
        lines.append([int(m.group(1)), s32(int(m.group(2).strip(), 16)), m.group(3)] if m else [9, 9, l])
    return dict(rc=rc, image=list(img or b""), map=lines, hasmap=mp is not None, diag=diag, said=bool(err.strip() or so.strip()),
                digest=hashlib.md5(repr((min(rc, 1), img)).encode()).hexdigest())


class Case:
    def __init__(self, name, files, asan=False, variants=False, missing=None, m=True, fnames=None, pre=(), load=False):
        self.name, self.files, self.asan, self.variants, self.missing, self.m = name, files, asan, variants, missing, m
        self.fnames, self.pre, self.load = fnames, list(pre), load

    def run(self):
        wd = scratch("asm")
        try:
            names = self.fnames or ["f%d.asm" % k for k in range(len(self.files))]
            for n, b in zip(names, encode(self.files)):
                if n not in (self.missing or ()):
                    with open(wd + "/" + n, "wb") as f:
                        f.write(b)
            exe = EXE["asan" if self.asan else "O2"]
            o = observe(names, *run_asm(wd, exe, names, self.pre + (["-m"] if self.m else [])))
            alts = []
            ld = dict(tried=False, ok=False, mem=[], mask=0, dirty=0)
            if self.load and o["image"]:
                x = subprocess.run([EXE["load"], wd + "/out.qvm"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode().splitlines()[-1].split()
                ld["tried"] = True
                if x[:1] == ["ok"]:
                    ld.update(ok=True, mask=int(x[1]), dirty=int(x[2]), mem=[int(y) for y in x[3:]])
            if self.variants:
                seq = [(["-b", "1"], None), (["-b", "7", "-v"], None), (["-b", "100000", "-vq3"], None), (["-v", "-m"], None),
                       ([], "\n".join(names)), ([], "// files\n%s // rest\n" % " \t\n".join(names)), ([], "-o out //\n\"" + "\"\"".join(names) + "\"//"),
                       ([], "//\n" + "//x\n".join(n + " " for n in names)), (["-m"], " ".join('"%s"' % n for n in names) + " // comment\n"),
                       (["-b", "1000003"], "".join(n[:-4] + "\n" for n in names))]
                for k, (pre, lf) in enumerate(seq):
                    x = observe(names, *run_asm(wd, EXE["O2" if k % 2 else "asan"], names, pre, listfile=lf))
                    alts.append(x["digest"])
                nx = [n[:-4] for n in names]
                alts.append(observe(names, *run_asm(wd, EXE["O2"], nx, [], out="out.qvm"))["digest"])
                os.makedirs(wd + "/sub", exist_ok=True)
                r = run_asm(wd, EXE["O2"], names, [], out="sub/out")
                img = None
                if os.path.exists(wd + "/sub/out.qvm"):
                    img = open(wd + "/sub/out.qvm", "rb").read()
                alts.append(observe(names, r[0], r[1], r[2], img, None)["digest"])
            return dict(name=self.name, files=self.files, missing=bool(self.missing), obs=o, alts=alts, load=ld)
        finally:
            shutil.rmtree(wd, ignore_errors=True)


# pairs of names with the same hash value, and one with hash value 0
COLL = "jpst ncoj jpsj ncop mphp ngml cokb odir cguu phma jieg psis jiog psos njhd qmhr lnqh uevh lnqg uevi lnqx uevx lnqw uevy lfve uhol hnnmmti".split()


def manyfiles(r, G, nf, extra=0):
    """files with equal local names, equates in every segment; extra: references to local names of other files"""
    p = []
    for f in range(nf):
        p.append(["code", "proc f%d 0 0" % f, "LABELV $1", "ADDRGP4 $1", "ADDRGP4 $2", "ADDRGP4 e%d" % ((f * 7) % nf), "ADDRGP4 f%d" % ((f + 1) % nf),
                  "endproc f%d 0 0" % f, r.choice(["lit", "data", "bss"]), "equ e%d %d" % (f, G.num()), "lit", "LABELV $2", "byte 1 %d" % f,
                  "code", "LABELV $only%d" % f, "ADDRGP4 $only%d" % f])
    for _ in range(extra):
        a, b = r.randrange(nf), r.randrange(nf)
        p[a].append("ADDRGP4 $only%d" % r.choice([b, b % 10, a % 10, a + 10, a + 256]))
    return p


def collide(r):
    nm = COLL[:]
    r.shuffle(nm)
    k = r.randrange(1, len(nm))
    f = ["code"] + ["equ %s %d" % (h, r.randrange(1000)) for h in nm[:k]] + ["proc f 0 0"]
    use = nm[:k] if r.random() < .7 else nm[:k + 1]
    return [f + ["CNSTI4 " + h for h in use] + ["RETV"]]


def a01(r, G, n):
    cs = []
    # every mnemonic with boundary operands, in one function per group
    groups = [OPS0 + IGN + CONV]
    for ops in (CONST, BR):
        for o in ops:
            groups.append(["%s %d" % (o, v) for v in (NUMS if ops is CONST else NUMS[:6])])
    groups.append(["ASGNB %d" % v for v in range(0, 40)])
    groups.append(["ADDRFP4 %d" % v for v in range(-8, 60, 4)] + ["ADDRLP4 %d" % v for v in range(0, 60, 3)])
    for k in range(0, 64):
        groups.append(["ARGI4"] * k + ["CALLI4", "ARGP4", "CALLV", "pop"])
    for k, g in enumerate(groups):
        cs.append(Case("op%d" % k, [["code", "proc f %d %d" % (k, k % 9)] + g + ["RETI4", "endproc f %d %d" % (k, k % 9)]], asan=k % 4 == 0))
    for k, v in enumerate(NUMS):
        cs.append(Case("dat%d" % k, [["data", "LABELV a"] + ["byte 4 %d" % v] * 2 + ["LABELV b", "byte 1 %d" % (v % 256), "byte 1 %d" % (v % 256 - 256)]
                                     + ["LABELV c", "address %d" % v, "address a+%d" % abs(v)]]))
    for lo in (0, 1, 3, 4, 32600, 32700, 32750, 32755, 32756, 32758, 32759, 32760, 40000):
        for ar in (0, 1, 4):
            cs.append(Case("frame%d-%d" % (lo, ar), [["code", "proc f %d %d" % (lo, ar), "ADDRLP4 4", "ADDRFP4 4", "RETV", "endproc f 0 0",
                                                     "proc g 4 8", "RETI4", "endproc g 4 8"]]))
    cs += [Case("p%d" % k, G.program(), asan=k % 8 == 0) for k in range(n)]
    return cs


def a02(r, G, n):
    cs = []
    for k in range(n):
        p = G.program(nfiles=r.choice([2, 3, 4]))
        if r.random() < .5:
            for f in p:
                f += ["code", "LABELV $loc", "ADDRGP4 $loc", "data", "LABELV $dat", "address $dat", "address $loc+%d" % r.randrange(9)]
        if r.random() < .3:
            r.shuffle(p)
        cs.append(Case("x%d" % k, p, asan=k % 10 == 0))
    for k in range(n // 40):
        cs.append(Case("many%d" % k, manyfiles(r, G, r.choice([9, 11, 12, 25, 30]), k % 3)))
        cs.append(Case("coll%d" % k, collide(r)))
    return cs


def a03(r, G, n):
    cs = []
    bad = ["FOO", "addi4", "ADDI", "ADDI8", "CNSTI8 4", "word 4", "PROC f 0 0", "LABE x", "byt 1 2", "CVFF4", "CVFF4 4", "LOADI4", "LOADB4", "CVII4", "CVII4 3",
           "byte 2 5", "ADDI4 5", "CNSTI4", "EQI4", "INDIRI4 4", "JUMPV x", "ASGNB", "align 3", "align 0", "align -4", "skip -1", "skip 99999999", "CVII4 x",
           "x:", "#", "=", "ADDRGP4", "align 12", "skip 10485761", "ENDPROC", "equ_ x 1", "datas", "BREAK 1", "0", "-1"]
    for k in range(n):
        p = G.program(small=True)
        kind = k % 5
        f = r.randrange(len(p))
        pos = r.randrange(len(p[f]) + 1)
        if kind in (0, 1):
            for _ in range(r.choice([1, 1, 2, 3])):
                b = r.choice(bad)
                if b.startswith(("align", "skip")):
                    p[f][pos:pos] = ["data", b]
                else:
                    p[f].insert(r.randrange(len(p[f]) + 1), b)
        elif kind == 2:   # undefined symbols
            p[f].append("code")
            for _ in range(r.choice([1, 1, 3])):
                p[f].append(r.choice(["ADDRGP4 %s", "CNSTI4 %s+4", "EQI4 %s", "address %s", "ADDRLP4 %s"]) %
                            r.choice(["undef", "undef2", "$undef", "_stackStart", "_stackEnd", "f", "$0", "_"]))
        elif kind == 3:   # multiple definitions, also of the stack symbols
            d = [x.split()[1] for q in p for x in q if x.startswith(("LABELV ", "proc ", "equ "))]
            nm = r.choice(d + ["_stackStart"])
            p[r.randrange(len(p))] += [r.choice(["data", "code", "bss"]), r.choice(["LABELV %s" % nm, "equ %s 3" % nm, "LABELV %s" % nm])]
        else:             # reference to a local label of another file
            p.append(["code", "ADDRGP4 $1", "ADDRGP4 $2"])
        cs.append(Case("e%d" % k, [G.lexical(q) if r.random() < .3 else q for q in p], asan=k % 3 == 0, m=r.random() < .5))
    # numbers of errors around the size of an exit code, empty things
    for e in (1, 64, 127, 128, 129, 255, 256, 257, 512):
        cs.append(Case("err%d" % e, [["code", "proc f 0 0"] + ["FOO"] * e]))
        cs.append(Case("und%d" % e, [["code", "proc f 0 0"] + ["ADDRGP4 u%d" % k for k in range(e)]]))
    for e in range(60, 70):
        cs.append(Case("arg%d" % e, [["code", "proc f 0 0"] + ["CNSTI4 1", "ARGI4"] * e + ["CALLV", "RETV"]]))
    for e in (32740, 32750, 32754, 32755, 32756, 32757, 32758, 32759, 32760, 32770, 65536, 100000):
        for g in (0, 3, 4):
            cs.append(Case("frame%d-%d" % (e, g), [["code", "proc f %d %d" % (e, g), "RETV", "endproc f 0 0"]]))
    for k in range(n // 40):
        cs.append(Case("many%d" % k, manyfiles(r, G, r.choice([9, 11, 12, 25, 30]), k % 3)))
        cs.append(Case("coll%d" % k, collide(r)))
    for k, f in enumerate([["data", "byte 1 5", "byte 4 5"], ["LABELV a"], ["align 4", "LABELV b", "byte 1 4"], ["byte 4 1"], ["address 5"], ["address a"],
                           ["bss", "LABELV x", "skip 4", "byte 4 5"], ["skip 4"], ["endproc f 0 0"], ["pop"], ["RETI4"], ["lit", "LABELV x"],
                           ["code", "LABELV x" + "y" * 1000, "ADDRGP4 x" + "y" * 1000], ["code", "ADDRGP4 " + "z" * 1014], ["code", "ADDRGP4 " + "z" * 1015],
                           ["code", "ADDRGP4 " + "z" * 1016], [";" + "x" * 5000], ["x" * 5000], [" " * 1024], [" " * 1023 + ";"], ["pop" + " " * 1021],
                           ["code", "proc " + "p" * 1018], ["equ " + "e" * 1000 + " 4"], ["LABELV", "proc", "equ", "byte", "align", "skip", "address"]]):
        cs.append(Case("odd%d" % k, [f], asan=True))
        cs.append(Case("odds%d" % k, [f + ["code", "proc f 0 0", "pop", "endproc f 0 0"], ["code", "proc g 0 0", "RETV", "endproc g 0 0"] + f[:0]], asan=True))
    big = [["bss", "LABELV x", "skip 10000000", "LABELV y", "skip 420224"], ["bss", "skip 10420224"], ["bss", "skip 10420225"], ["bss", "skip 10485760"],
           ["bss", "skip 10485760", "skip 1"], ["bss", "skip 2000000000", "skip 2000000000"], ["bss", "skip 2147483647"], ["bss", "align 1073741824", "skip 4"],
           ["bss", "skip 1", "align 8388608", "LABELV z", "skip 1"], ["bss", "align -2147483648"]]
    for k, f in enumerate(big):
        cs.append(Case("big%d" % k, [f + ["code", "proc f 0 0", "RETV", "endproc f 0 0"]], asan=True))
    ok = ["code", "proc f 0 0", "RETV", "endproc f 0 0"]
    cs.append(Case("miss1", [ok, ok], missing=["f1.asm"], asan=True))
    cs.append(Case("miss2", [ok], missing=["f0.asm"], asan=True))
    # raw bytes
    for k in range(n // 3):
        L = []
        for _ in range(r.randrange(1, 12)):
            m = r.random()
            if m < .5:
                s = r.choice(OPS0 + CONST + BR + bad + ["proc", "LABELV", "byte", "address", "align", "skip", "data", "lit", "code", "bss", "equ"])
                s += " " + " ".join(r.choice(["$", "-", "+", "--5", "5-", "a+b", "a", "999999999999999999999", "-2147483649", "0x10", ";", "$+4", "+5", "a-", "1"])
                                    for _ in range(r.randrange(0, 4)))
            else:
                s = "".join(chr(r.choice(list(range(1, 10)) + list(range(11, 127)))) for _ in range(r.randrange(0, 40)))
            L.append(s)
        cs.append(Case("raw%d" % k, [L], asan=True))
    return cs


def a04(r, G, n):
    cs = []
    for k in range(n):
        f = []
        for j in range(r.randrange(3, 14)):
            G.obj(f, "o%d" % j, ["o%d" % i for i in range(j + 1)])
            if r.random() < .3:
                f += ["code", "proc p%d 0 0" % j, "ADDRGP4 o%d" % j, "RETI4", "endproc p%d 0 0" % j]
        cut = r.randrange(len(f))
        fs = [f] if r.random() < .5 else [f[:cut], f[cut:]]
        if len(fs) == 2 and cut < len(f) and not f[cut].startswith(("data", "lit", "bss", "code")):
            fs = [f]
        cs.append(Case("l%d" % k, fs, asan=k % 6 == 0, load=True))
    return cs


def a05(r, G, n):
    cs = []
    for k in range(n):
        p = G.program()
        p[0] += ["code"] + ["equ q%d_%d %d" % (k, i, G.num()) for i in range(r.randrange(0, 6))]
        if r.random() < .5:
            p[-1] += [r.choice(["code", "data", "lit", "bss"])]
        cs.append(Case("m%d" % k, p, m=k % 8 != 0))
    for k in range(n // 40):
        cs.append(Case("many%d" % k, manyfiles(r, G, r.choice([9, 11, 12, 25, 30]))))
        cs.append(Case("coll%d" % k, collide(r)))
    return cs


def a06(r, G, n):
    cs = []
    for k in range(n):
        p = G.program(small=True)
        if k % 3 == 0:
            p = [G.lexical(q) for q in p]
        if k % 7 == 0:
            p[0].append(r.choice(["FOO", "ADDRGP4 undef"]))
        cs.append(Case("v%d" % k, p, variants=True, m=k % 2 == 0))
    # names that meet in the hash table: permutations and near misses
    for k in range(3):
        nm = ["".join(x) for x in __import__("itertools").permutations("abcd")] + ["%c%d" % (c, i) for c in "xyz" for i in range(40)]
        r.shuffle(nm)
        f = ["code"] + ["equ %s %d" % (x, i * 3 + 1) for i, x in enumerate(nm)] + ["proc f 0 0"] + ["CNSTI4 %s" % x for x in nm] + ["endproc f 0 0"]
        cs.append(Case("hash%d" % k, [f], variants=True))
    for i in range(0, 26, 2):
        cs.append(Case("hashu%d" % i, [["code", "equ %s 5" % COLL[i], "proc f 0 0", "CNSTI4 " + COLL[i + 1], "RETV"]], variants=True))
    for k in range(8):
        cs.append(Case("coll%d" % k, collide(r), variants=True))
    for k in range(24):
        nm = ["n%d" % r.randrange(10 ** 6) for _ in range(r.choice([3, 30, 300]))]
        nm.append(r.choice(nm))
        cs.append(Case("dup%d" % k, [["code"] + ["equ %s 1" % x for x in nm] + ["proc f 0 0", "RETV"]], variants=True))
    # many files
    for nf in (40, 256):
        cs.append(Case("files%d" % nf, [["code", "proc g%d 0 0" % i, "ADDRGP4 g%d" % ((i * 5) % nf), "LABELV $1", "ADDRGP4 $1", "endproc g%d 0 0" % i] for i in range(nf)],
                       variants=nf < 100))
    return cs


SIZE = dict(A01=(500, 4000), A02=(800, 6000), A03=(800, 6000), A04=(800, 6000), A05=(700, 6000), A06=(200, 1500))
RULE = ("generated assembly programs (every mnemonic, data directive, segment and expression form, several files; seeded), error injections and odd inputs; "
        "non-trivial: a case that assembles to an image that is compared byte for byte, or must be refused")


def main_():
    pid = sys.argv[1]
    EXE["O2"], EXE["asan"] = toolchain.q3asm(), toolchain.q3asm("asan")
    EXE["load"] = toolchain.qload()
    r = random.Random("%s-%d" % (pid, SEED))
    cases = globals()[pid.lower()](r, Gen(r), SIZE[pid][0 if QUICK else 1])
    with ThreadPoolExecutor(8) as ex:
        items = list(ex.map(lambda c: c.run(), cases))
    log("%s: %d assembler cases run" % (pid, len(items)))
    byname = {c.name: c for c in cases}
    for c in cases:
        assert c.name in byname

    def again(it):
        global TMO
        TMO = 120
        return byname[it["name"]].run()
    return acc.decide(pid, "Asm", items, again, RULE, invs=["LayoutOK"],
                      assumptions=["TLC evaluates the specification correctly", "text files without NUL bytes"],
                      cov=dict(builds=["gcc -O2", "gcc -O1 with AddressSanitizer"]))


main(main_)
