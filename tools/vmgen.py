"""Generated host scripts and guest programs for the VM checks."""
import random, struct
from vmasm import *

INTS = [0, 1, -1, 2, -2, 3, 5, -7, 10, 31, 32, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535,
        65536, 0x7fffff, 0x1000000, 0x12345678, 0x7ffffffe, 0x7fffffff, -0x80000000, -0x7fffffff, 0x55555555]
FLTS = [0, 0x80000000, 1, 0x80000001, 0x7fffff, 0x800000, 0x3f800000, 0xbf800000, 0x40000000, 0x40490fdb, 0x7f7fffff,
        0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0x4b000000, 0x4b800000, 0x4effffff, 0x4f000000,
        0xcf000000, 0x3f7fffff, 0x3f800001, 0x33800000, 0x3effffff, 0x42c80000]
IBIN = "ADD SUB DIVI DIVU MODI MODU MULI MULU BAND BOR BXOR LSH RSHI RSHU".split()
IBR = "EQ NE LTI LEI GTI GEI LTU LEU GTU GEU".split()
FBIN = "ADDF SUBF DIVF MULF".split()
FBR = "EQF NEF LTF LEF GTF GEF".split()
IUN = "SEX8 SEX16 NEGI BCOM CVIF".split()
FUN = "NEGF CVFI".split()


def rint(r):
    k = r.random()
    if k < .45:
        return r.choice(INTS)
    if k < .6:
        return s32(1 << r.randrange(32)) + r.randint(-2, 2)
    if k < .75:
        return r.randint(-300, 300)
    return s32(r.getrandbits(32))


def rflt(r):
    k = r.random()
    if k < .4:
        return s32(r.choice(FLTS))
    if k < .7:
        return s32((r.randint(117, 140) << 23) | r.getrandbits(23) | (r.getrandbits(1) << 31))
    if k < .85:
        return struct.unpack("<i", struct.pack("<f", float(r.randint(-100000, 100000)) / r.choice([1, 2, 3, 7, 64])))[0]
    return s32(r.getrandbits(32))


def emit(p, sp=8, num=0, args=()):
    """System call with constant arguments; leaves its result on the stack."""
    for k, a in enumerate(args):
        p('CONST', a)
        p('ARG', sp + 4 * k)
    p('CONST', -1 - num)
    p('CALL')


FRAME = 88  # room for 15 outgoing arguments and some locals


def optable(r, cid, tests, mem=1024):
    """Program running many (op, operands...) tests, results stored in words
    from address 8 on; then dumped."""
    p = Prog()
    p('ENTER', FRAME)
    a = 8
    for t in tests:
        op = t[0]
        k = r.random()
        if op in IBR or op in FBR:
            # result word: 1 taken, 0 not
            p('CONST', a)
            p('CONST', t[1])
            p('CONST', t[2])
            p(op, len(p.ins) + 3)
            p('CONST', 0)
            p('CONST', len(p.ins) + 3)
            p('JUMP')
            p.ins[-4] = (NUM[op], len(p.ins))
            p('CONST', 1)
            p('STORE4')
        else:
            p('CONST', a)
            for x in t[1:]:
                if k < .8:
                    p('CONST', x)
                elif k < .9:  # through memory
                    p('CONST', 4)
                    p('CONST', x)
                    p('STORE4')
                    p('CONST', 4)
                    p('LOAD4')
                else:
                    p('CONST', x)
                    p('IGNORE')
            p(op)
            p('STORE4')
        a += 4
    p('CONST', r.randint(-5, 5))
    p('LEAVE', FRAME)
    c = Case(cid)
    c.img(image(p, bss=mem))
    c.create()
    c.call()
    c.dump()
    c.free()
    return c


def all_optests(r, quick):
    ts = []
    ints = INTS if not quick else r.sample(INTS, 17) + [0, -1, -0x80000000, 0x7fffffff, 1]
    flts = FLTS if not quick else r.sample(FLTS, 14) + [0, 0x80000000, 0x7fc00000, 0x7f800000]
    flts = [s32(x) for x in flts]
    for op in IBIN + IBR:
        for x in ints:
            for y in ints:
                if op in IBIN and op[:3] in ("DIV", "MOD") and y == 0:
                    continue
                if op in ("LSH", "RSHI", "RSHU"):
                    y &= 31
                ts.append((op, x, y))
    for op in FBIN + FBR:
        for x in flts:
            for y in flts:
                ts.append((op, x, y))
    for op in IUN:
        for x in INTS + [rint(r) for _ in range(30)]:
            ts.append((op, x))
    for op in FUN:
        for x in FLTS + [rflt(r) for _ in range(40)]:
            ts.append((op, s32(x)))
    for _ in range(600 if quick else 6000):
        op = r.choice(IBIN + IBR)
        y = rint(r)
        if op[:3] in ("DIV", "MOD") and y == 0:
            y = 3
        ts.append((op, rint(r), y))
        ts.append((r.choice(FBIN + FBR), rflt(r), rflt(r)))
        ts.append((r.choice(["DIVU", "MODU", "DIVI", "MODI"]), rint(r), rint(r) or 1))
    r.shuffle(ts)
    return ts


def optable_cases(r, quick):
    ts = all_optests(r, quick)
    n = 110
    cs = [optable(r, "ops%d" % i, ts[i:i + n]) for i in range(0, len(ts), n)]
    # division by zero: one per program
    for op in ("DIVI", "DIVU", "MODI", "MODU"):
        for x in (0, 1, -1, -0x80000000, 7, rint(r)):
            cs.append(optable(r, "div0-%s-%d" % (op, x), [("ADD", 1, 2), (op, x, 0), ("ADD", 3, 4)], 256))
    return cs


# ------------------------------------------------------------------ programs
class Gen:
    """Random guest programs.  mode flags steer what appears:
    wild: wild addresses/frames; jumps: odd control flow; nest: callbacks that
    use the library; float: float ops; poison: operations whose result is
    unspecified."""

    def __init__(self, r, **kw):
        self.r = r
        self.wild = kw.get("wild", 0.0)
        self.jumps = kw.get("jumps", 0.0)
        self.nest = kw.get("nest", 0.0)
        self.host = kw.get("host", 0.1)
        self.flt = kw.get("flt", .15)
        self.poison = kw.get("poison", 0.0)
        self.div0 = kw.get("div0", 0.0)
        self.size = kw.get("size", 256)
        self.under = kw.get("under", 0.0)
        self.nfun = kw.get("nfun", 3)
        self.len = kw.get("len", 25)
        self.aligned = kw.get("aligned", .7)
        self.rec = kw.get("rec", .15)
        self.nestops = kw.get("nestops", (7,))
        self.loopy = kw.get("loopy", .1)
        self.nvm = kw.get("nvm", 1)

    def addr(self):
        r = self.r
        if r.random() < self.wild:
            return r.choice([self.size - r.randint(0, 9), self.size + r.randint(0, 9), -r.randint(1, 12), rint(r),
                             self.size * r.randint(2, 9) + r.randint(0, 64), r.randint(0, 3)])
        lim = max(8, self.size // 2)
        return r.randrange(4, lim, 4) if r.random() < self.aligned else r.randrange(4, lim)

    def const(self, p):
        r = self.r
        p('CONST', rflt(r) if r.random() < self.flt else rint(r))

    def call_arg(self, p, k):
        p('ARG', (8 + 4 * k))

    def step(self, p, st):
        """One random step; st: dict with depth, frame, fun, targets."""
        r = self.r
        d = st["d"]
        k = r.random()
        if r.random() < self.under:
            p(r.choice(["POP", "POP", "POP", "PUSH", "PUSH"]))
            st["d"] = max(0, d - 1) if p.ins[-1][0] == 7 else d + 1
            return
        if r.random() < self.div0 and d >= 1:
            p('CONST', 0)
            p(r.choice(["DIVI", "DIVU", "MODI", "MODU"]))
            return
        if r.random() < self.poison:
            w = r.randrange(4)
            if w == 0:
                p('PUSH')
                st["d"] += 1
                return
            if w == 1 and d >= 1:
                p('CONST', r.choice([32, 33, -1, 64, 1000]))
                p(r.choice(["LSH", "RSHI", "RSHU"]))
                return
            if w == 2 and d >= 1:
                p('CVFI')
                return
            if w == 3:
                p('LOCAL', st["frame"])
                p('LOAD4')
                st["d"] += 1
                return
        if r.random() < self.jumps:
            self.odd_jump(p, st)
            return
        if d < 2 or (k < .25 and d < 8):
            w = r.random()
            if w < .6:
                self.const(p)
            elif w < .75:
                p('LOCAL', r.choice([8, 12, 16, st["frame"] + 8, st["frame"] + 12, st["frame"] + 4 * r.randint(2, 14)]))
                if r.random() < .8:
                    p('LOAD4')
            else:
                p('CONST', self.addr())
                p(r.choice(["LOAD1", "LOAD2", "LOAD4"]))
            st["d"] += 1
            return
        if k < .50:
            if r.random() < self.flt:
                p(r.choice(FBIN))
            else:
                op = r.choice(IBIN)
                if op in ("LSH", "RSHI", "RSHU"):
                    p('CONST', r.randint(0, 31))
                    p(op)
                    return
                if op[:3] in ("DIV", "MOD"):
                    p('CONST', rint(r) or 1)
                    p(op)
                    return
                p(op)
            st["d"] -= 1
            return
        if k < .58:
            p(r.choice(IUN + ["NEGF"]))
            return
        if k < .68:
            p('CONST', self.addr())
            self.const(p)
            p(r.choice(["STORE1", "STORE2", "STORE4"]))
            return
        if k < .72:
            # store the computed value
            p('CONST', 4)
            p('LOAD4')
            p('POP')
            p('ARG', r.choice([8, 12, 16, 20, 24, 28]) if r.random() > self.wild else r.randrange(256))
            st["d"] -= 1
            return
        if k < .76:
            n = r.choice([0, 1, 2, 3, 4, 8, 12, 16, r.randint(0, 40)])
            if r.random() < self.wild:
                n = r.choice([n, self.size, self.size - 1, self.size + 1, -1, -4, -8, -100, rint(r), 0x7fffffff, self.size // 2])
            p('CONST', self.addr())
            p('CONST', self.addr())
            p('BLOCK_COPY', n)
            return
        if k < .80:
            self.branch(p, st)
            return
        if k < .84:
            p(r.choice(["IGNORE", "BREAK", "IGNORE"]))
            return
        if k < .86:
            p('POP')
            st["d"] -= 1
            return
        self.callsome(p, st)

    def branch(self, p, st):
        """Forward branch over a few balanced instructions."""
        r = self.r
        if r.random() < self.flt:
            p('CONST', rflt(r))
            p('CONST', rflt(r))
            op = r.choice(FBR)
        else:
            self.const(p)
            self.const(p)
            op = r.choice(IBR)
        at = len(p.ins)
        p(op, 0)
        for _ in range(r.randint(1, 3)):
            p('CONST', self.addr())
            self.const(p)
            p('STORE4')
        if r.random() < .3:
            p('CONST', len(p.ins) + 3)
            p('JUMP')
            p('IGNORE')
        p.ins[at] = (NUM[op], len(p.ins))

    def loop(self, p, st):
        """Counted loop in a local."""
        r = self.r
        p('LOCAL', 80)
        p('CONST', r.randint(1, 6))
        p('STORE4')
        top = len(p.ins)
        p('CONST', self.addr())
        p('CONST', self.addr())
        p('LOAD4')
        p('CONST', rint(r))
        p(r.choice(["ADD", "SUB", "MULI", "BXOR"]))
        p('STORE4')
        p('LOCAL', 80)
        p('LOCAL', 80)
        p('LOAD4')
        p('CONST', 1)
        p('SUB')
        p('STORE4')
        p('LOCAL', 80)
        p('LOAD4')
        p('CONST', 0)
        p('NE', top)

    def callsome(self, p, st):
        r = self.r
        if r.random() < self.nest:
            num = r.choice(self.nestops)
            if num == 7:
                args = [r.randint(2, 30)] + [rint(r) for _ in range(r.randint(0, 12))]
                args += [0] * (13 - len(args))
            elif num == 9:
                args = [r.randint(1, self.nvm), r.randint(2, 30)] + [rint(r) for _ in range(12)]
            elif num == 10:
                args = [r.randint(1, self.nvm), r.randint(1, 2)]
            elif num == 11:
                args = [r.randint(1, self.nvm), 0]
            else:
                args = [0]
            if num == 7 or num == 9:
                # bounded recursion: only while the depth argument is positive
                k0 = 0 if num == 7 else 1
                p('LOCAL', st["frame"] + 8)
                p('LOAD4')
                p('CONST', 1)
                at = len(p.ins)
                p('LEI', 0)
                for k, a in enumerate(args):
                    if k == k0:
                        p('LOCAL', st["frame"] + 8)
                        p('LOAD4')
                        p('CONST', r.choice([1, 2]))
                        p('RSHI')
                    else:
                        p('CONST', a)
                    p('ARG', 8 + 4 * k)
                p('CONST', -1 - num)
                p('CALL')
                p('ARG', 8 + 4 * r.randint(0, 10))
                p.ins[at] = (NUM['LEI'], len(p.ins))
                return
            emit(p, 8, num, args)
            st["d"] += 1
            return
        w = r.random()
        if w < self.host:
            num = r.choice([1, 2, 3, 4, 5, 6, 12, 13, 15, 16, 100, 1000000, 0x7fffffff, 14])
            a = [self.addr(), self.addr(), r.choice([0, 1, 4, 8, r.randint(0, 30)])]
            if num in (2, 3, 5, 6, 4):
                if r.random() < self.wild:
                    a[2] = r.choice([-1, -4, self.size, self.size - 1, rint(r), -self.size])
                if num == 4:
                    a[1] = a[2]
                if num == 2:
                    a[1] = rint(r)
            elif num != 14:
                a = [rint(r) for _ in range(r.randint(1, 15))]
            emit(p, 8, num, a)
            st["d"] += 1
        elif w < .5 or not st["callee"]:
            # emit what is on top
            n = r.randint(0, 3)
            for k in range(n):
                self.const(p)
                p('ARG', 12 + 4 * k)
            if st["d"] >= 1:
                p('ARG', 8)
                st["d"] -= 1
            p('CONST', -1)
            p('CALL')
            st["d"] += 1
        else:
            f = r.choice(st["callee"])
            for k in range(r.randint(0, 4)):
                self.const(p)
                p('ARG', 8 + 4 * k)
            p('CONST', f)
            p('CALL')
            st["d"] += 1

    def odd_jump(self, p, st):
        r = self.r
        w = r.randrange(7)
        tot = 400
        tgt = r.choice([r.randrange(tot), -1, -0x80000000, 0x7fffffff, len(p.ins) + 3, len(p.ins) + 2, rint(r), 1 << 20, 0])
        if w == 0:
            p('CONST', tgt)
            p('JUMP')
        elif w == 1:
            p('CONST', abs(tgt) if tgt != -0x80000000 else 5)
            p('CALL')
            st["d"] += 1
        elif w == 2:  # corrupt the return address
            p('LOCAL', st["frame"] + r.choice([0, 0, 0, 1, 2, 4]))
            p('CONST', r.choice([tgt, rint(r), 3, 0, -1, -2]))
            p(r.choice(['STORE4', 'STORE4', 'STORE1', 'STORE2']))
        elif w == 3:
            p('LEAVE', r.choice([0, 4, 8, -4, rint(r)]))
        elif w == 4:
            p('UNDEF')
        elif w == 5:
            p('ENTER', r.choice([0, 4, 8, 16, -16, rint(r)]))
        else:
            p('CONST', r.randint(0, 3))
            p('CONST', r.randint(0, 3))
            p(r.choice(IBR), ('T', r.randrange(1000)))

    def program(self):
        r = self.r
        p = Prog()
        n = r.randint(1, self.nfun)
        # function 0 first; callees only later ones (no unbounded recursion)
        fix = []
        starts = {}
        for f in range(n):
            starts[f] = len(p.ins)
            frame = FRAME + 4 * r.randint(0, 3)
            if r.random() < self.wild * .3:
                frame = r.choice([0, 8, 24, 60, 64, 1000, -8, self.size, rint(r)])
            p('ENTER', frame)
            st = dict(d=0, frame=frame, callee=["F%d" % g for g in range(f + 1, n)], fun=f)
            for _ in range(r.randint(3, self.len)):
                if r.random() < self.loopy:
                    self.loop(p, st)
                else:
                    self.step(p, st)
            while st["d"] > 1:
                p('POP')
                st["d"] -= 1
            if st["d"] == 0:
                p('CONST', rint(r))
            if r.random() < .03 * (self.under > 0):
                p('POP')
            p('LEAVE', frame if r.random() > self.wild * .2 else r.choice([0, 4, frame + 4, rint(r)]))
        tot = len(p.ins)
        for i, (op, a) in enumerate(p.ins):
            if isinstance(a, str) and a[0] == 'F':
                p.ins[i] = (op, starts[int(a[1:])])
            elif isinstance(a, tuple):
                p.ins[i] = (op, a[1] % tot)
        return p


def seg(r, size):
    """data, lit, bss that give a segment of exactly `size` bytes"""
    lo = size // 2 + 1 if size > 1 else 0
    tot = r.randint(lo, size)
    d = r.randint(0, min(tot, 40)) & ~3 if r.random() < .7 else r.randint(0, min(tot, 40))
    l = r.randint(0, min(tot - d, 24))
    return bytes(r.getrandbits(8) for _ in range(d)), bytes(r.getrandbits(8) for _ in range(l)), tot - d - l


def prog_case(r, cid, g, ncalls=None, sizes=(256, 512, 1024), free=True, trail=True):
    g.size = r.choice(sizes)
    p = g.program()
    d, l, b = seg(r, g.size)
    c = Case(cid)
    c.img(image(p, d, l, b, gap=r.choice([0, 0, 3, 4]), pad=r.choice([0, 0, 0, 1, 3])))
    c.create()
    for _ in range(ncalls or r.randint(1, 3)):
        c.call(1, r.randint(0, 40), *[rint(r) for _ in range(12)])
    c.dump()
    if free:
        c.free()
    return c


def progs(r, tag, n, sizes=(256, 512), **kw):
    return [prog_case(r, "%s%d" % (tag, i), Gen(r, **kw), sizes=sizes) for i in range(n)]
