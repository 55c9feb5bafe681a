"""Case generators, one family per VM property."""
import os, random, struct, itertools
from vmasm import *
from vmgen import *


def P(*ins):
    p = Prog()
    for i in ins:
        p(*i) if isinstance(i, tuple) else p(i)
    return p


def simple(cid, p, bss=256, data=b"", lit=b"", calls=((0,),), dump=True, free=True, **kw):
    c = Case(cid)
    c.img(image(p, data, lit, bss, **kw))
    c.create()
    for a in calls:
        c.call(1, *a)
    if dump:
        c.dump()
    if free:
        c.free()
    return c


# ------------------------------------------------------------------- V01
def deep(r, cid):
    """Operand stack of any depth: push n, reduce, report."""
    n = r.choice([1, 2, 3, 5, 17, 100, 200, 250, 253, 254])
    p = Prog()
    p('ENTER', FRAME)
    for k in range(n):
        p('CONST', rint(r))
        if r.random() < .1:
            p(r.choice(IUN[:4]))
    for k in range(n - 1):
        op = r.choice(["ADD", "SUB", "BXOR", "MULI", "BOR", "BAND", "MULU"])
        p(op)
        if r.random() < .05:
            p('ARG', 8)
            p('CONST', -1)
            p('CALL')
    p('LEAVE', FRAME)
    return simple(cid, p, bss=512)


def v01(r, q):
    cs = optable_cases(r, q)
    cs += [deep(r, "deep%d" % i) for i in range(30 if q else 300)]
    cs += progs(r, "p", 300 if q else 3000)
    cs += progs(r, "f", 200 if q else 2000, flt=.6)
    return cs


# ------------------------------------------------------------------- V02
def edgeaddrs(size):
    s = {0, 1, 2, 3, size // 2, -1, -2, -3, -4, -5, -8, -0x80000000, 0x7fffffff, 0x7ffffffc, 65536, -65536}
    for m in (1, 2, 3):
        s |= {m * size + d for d in range(-5, 6)}
    return sorted(s32(x) for x in s)


def memgrid(r, q):
    """every access instruction x boundary addresses x segment sizes"""
    cs = []
    sizes = [1, 2, 4, 8, 16, 64, 256, 1024] if q else [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096]
    for size in sizes:
        for a in edgeaddrs(size):
            if q and r.random() < (.85 if size < 64 else .35):
                continue
            for op in ("LOAD1", "LOAD2", "LOAD4", "STORE1", "STORE2", "STORE4"):
                if q and r.random() < .4:
                    continue
                p = Prog()
                p('ENTER', 24)
                p('CONST', a)
                if op[0] == 'L':
                    p(op)
                else:
                    p('CONST', rint(r))
                    p(op)
                    p('CONST', a)
                    p('LOAD' + op[5])
                p('ARG', 8)
                p('CONST', -2)
                p('CALL')
                p('LEAVE', 24)
                cs.append(simple("mem%d-%s-%d" % (size, op, a), p, bss=size))
    return cs


def copygrid(r, q):
    cs = []
    for size in ([8, 64, 256] if q else [1, 4, 8, 16, 64, 256, 1024]):
        es = edgeaddrs(size)
        lens = sorted(set([0, 1, 2, 3, 4, 5, 7, 8, 16, size // 2, size - 1, size, size + 1, size + 4, -1, -2, -4, -5, -8, -size, 1 - size,
                           -0x80000000, 0x7fffffff, 0x7ffffff0, -0x7fffffff, 65536, 2 * size]))
        n = 0
        allc = [(d, s, k) for d in es for s in es for k in lens]
        inn = [(d, s, k) for d in range(0, size + 1, max(1, size // 8)) for s in range(0, size + 1, max(1, size // 8))
               for k in (0, 1, size // 8, size // 2, size)]
        for d, s, k in r.sample(allc, min(len(allc), 150 if q else 3000)) + r.sample(inn, min(len(inn), 60 if q else 400)):
            n += 1
            p = Prog()
            p('ENTER', 24)
            p('CONST', d)
            p('CONST', s)
            p('BLOCK_COPY', k)
            p('CONST', n)
            p('LEAVE', 24)
            data = bytes(r.getrandbits(8) for _ in range(min(size, 200)))
            cs.append(simple("copy%d-%d-%d-%d" % (size, d, s, k), p, data=data, bss=size - len(data), calls=((0,), (1,)) if n % 3 == 0 else ((0,),)))
    return cs


def framegrid(r, q):
    """stack pointers anywhere: ENTER, LOCAL, ARG, CALL, system calls"""
    cs = []
    sizes = [1, 4, 16, 64, 128, 1024]
    fr = [0, 4, 8, 12, 60, 64, 68, 72, 128, 256, 1000, 1024, 4096, 65536, 1 << 20, 0x7fffffff, 0x7ffffff0, -0x80000000, -4, -8, -60, -64,
          -68, -100, -1024, -65536, 1, 2, 3, 5, -1, -3]
    for size in sizes:
        for f in fr:
            if q and r.random() < (.6 if size < 64 else .3):
                continue
            p = Prog()
            p('ENTER', f)
            p('CONST', 77)
            p('ARG', r.choice([0, 4, 8, 12, 64, 252, 255]))
            p('LOCAL', r.choice([0, 4, 8, 16, -4, 100]))
            p('LOAD4')
            p('POP')
            if r.random() < .5:
                p('CONST', 11)
                p('CALL')
                p('POP')
            else:
                p('IGNORE'); p('IGNORE'); p('IGNORE')
            p('CONST', -2)
            p('CALL')
            p('LEAVE', f)
            body = len(p.ins)
            p.ins = [(o, body if o == 8 and a == 11 else a) for o, a in p.ins]
            p('ENTER', 8)
            p('CONST', 3)
            p('LEAVE', 8)
            cs.append(simple("frame%d-%d" % (size, f), p, bss=size, calls=((1, 2), (3, 4))))
    # recursion without end
    for size in (64, 256, 4096):
        for f in (8, 16, 24, 100, 1 << 16):
            p = P(('ENTER', f), ('CONST', 0), 'CALL', ('LEAVE', f))
            cs.append(simple("rec%d-%d" % (size, f), p, bss=size))
    return cs


def v02(r, q):
    cs = memgrid(r, q) + copygrid(r, q) + framegrid(r, q)
    cs += progs(r, "w", 500 if q else 6000, wild=.3, sizes=(16, 64, 256, 512, 1024))
    cs += progs(r, "wn", 100 if q else 1500, wild=.2, nest=.3, sizes=(64, 256, 1024))
    return cs


# ------------------------------------------------------------------- V03
def targets(n, clen):
    return sorted(set([0, 1, 2, n - 2, n - 1, n, n + 1, clen - 1, clen, clen + 1, clen * 4, 63, 64, 255, 256, 65535, 65536, 0x7fffffff,
                       0x7ffffffe, -0x80000000, -0x7fffffff, -1, -2, -3, -n, 1 << 24]))


def ctrlgrid(r, q):
    cs = []
    for t in targets(12, 40):
        for op in ("JUMP", "CALL"):
            p = P(('ENTER', 24), ('CONST', 4), ('ARG', 8), ('CONST', 9), ('CONST', t), op, ('CONST', 1), ('LEAVE', 24),
                  ('CONST', 5), ('LEAVE', 24), ('CONST', 6), ('LEAVE', 24))
            cs.append(simple("%s%d" % (op, t), p))
        for op in (IBR + FBR if not q else r.sample(IBR + FBR, 6)):
            # a taken and an untaken branch to t; rejected when t is outside
            for a, b in ((1, 1), (1, 2), (2, 1)):
                p = P(('ENTER', 24), ('CONST', a), ('CONST', b), (op, t), ('CONST', 1), ('LEAVE', 24), ('CONST', 5), ('LEAVE', 24),
                      ('CONST', 6), ('LEAVE', 24), ('CONST', 7), ('LEAVE', 24))
                cs.append(simple("%s%d-%d%d" % (op, t, a, b), p))
        # overwritten return addresses
        for st in ("STORE4", "STORE2", "STORE1"):
            p = P(('ENTER', 24), ('CONST', 6), 'CALL', ('LEAVE', 24), 'IGNORE', 'IGNORE',
                  ('ENTER', 16), ('LOCAL', 16), ('CONST', t), st, ('CONST', 3), ('LEAVE', 16))
            cs.append(simple("ret%s%d" % (st, t), p))
        # LEAVE to a frame that holds t as return address
        p = P(('ENTER', 24), ('CONST', 100), ('CONST', t), 'STORE4', ('LOCAL', 0), ('CONST', 100), 'SUB', 'POP', ('CONST', 8),
              ('LEAVE', 56 + 60), ('CONST', 1), ('LEAVE', 24))
        cs.append(simple("leave%d" % t, p, bss=256, data=struct.pack("<i", s32(t)) * 60))
    # every address of a small program as forged return address
    base = [('ENTER', 24), ('CONST', 6), 'CALL', ('LEAVE', 24), 'IGNORE', 'IGNORE', ('ENTER', 16), ('LOCAL', 16), None, 'STORE4',
            ('CONST', 11), ('EQ', 8), ('CONST', 8), ('LEAVE', 16)]
    for t in range(0, 60):
        ins = list(base)
        ins[8] = ('CONST', t)
        cs.append(simple("forge%d" % t, P(*ins)))
    # operands that look like instructions, entered in the middle
    for v in (list(range(0, 70)) if not q else r.sample(range(0, 70), 30)) + [0x12345608, -1, 1 << 30]:
        for k in (0, 1):
            ins = [('ENTER', 24), ('CONST', 6), 'CALL', ('CONST', v), ('LEAVE', 24), 'IGNORE', ('ENTER', 16), ('LOCAL', 16),
                   ('CONST', 6 if k else 15), 'STORE4', ('CONST', v), ('LEAVE', 16)]
            p = P(*ins)
            cs.append(simple("mid%d-%d" % (v, k), p))
    # falling off the end; last instruction of every kind
    for op in range(60):
        p = P(('ENTER', 24), ('CONST', 100), ('CONST', 1))
        p(op, 0 if op in WORD or op == 33 else None)
        cs.append(simple("last%d" % op, p, pad=r.choice([0, 0, 1, 5])))
    for n in range(0, 3):
        p = P(*(['IGNORE'] * n + [('ENTER', 8)]))
        cs.append(simple("off%d" % n, p))
    # the interpreter must not trust linkage words the callback changes
    for t in targets(12, 40):
        p = P(('ENTER', 40), ('LOCAL', 0), ('ARG', 8), ('CONST', t & 255), ('ARG', 12), ('CONST', r.choice([1, 2, 4, 8, 40])), ('ARG', 16),
              ('CONST', -6), 'CALL', ('ARG', 8), ('CONST', -1), 'CALL', ('LEAVE', 40))
        cs.append(simple("cb%d" % t, p))
    return cs


def v03(r, q):
    cs = ctrlgrid(r, q)
    cs += progs(r, "j", 500 if q else 6000, jumps=.1)
    cs += progs(r, "jw", 200 if q else 3000, jumps=.06, wild=.15, nest=.1)
    return cs


# ------------------------------------------------------------------- V04
def v04(r, q):
    cs = []
    xs = [0, 1, -1, 2, 7, 0x7fffffff, -0x80000000, -0x7fffffff, 1000]
    n = 0
    for op in ("DIVI", "DIVU", "MODI", "MODU"):
        for x in xs:
            for y in [0, 1, -1, -0x80000000, 0x7fffffff]:
                n += 1
                # in a callee, with live values around, then called again
                p = P(('ENTER', 40), ('CONST', 5), ('LOCAL', 48), 'LOAD4', ('CONST', 0), ('NE', 11), ('CONST', 14), 'CALL', 'ADD', ('LEAVE', 40),
                      'IGNORE', ('CONST', 2), 'MULI', ('LEAVE', 40), ('ENTER', 24), ('CONST', 60), ('CONST', x), 'STORE4', ('CONST', x),
                      ('CONST', y), op, ('ARG', 8), ('CONST', -1), 'CALL', ('CONST', 9), ('LEAVE', 24))
                cs.append(simple("%s_%d_%d" % (op, x, y), p, bss=512, calls=((0,), (1,), (0,), (1,))))
    for op in ("LSH", "RSHI", "RSHU"):
        for y in [32, 33, 63, 64, -1, -0x80000000, 0x7fffffff, 255, 256]:
            for x in (1, -1, 0):
                p = P(('ENTER', 24), ('CONST', x), ('CONST', y), op, 'POP', ('CONST', 3), ('ARG', 8), ('CONST', -1), 'CALL', ('LEAVE', 24))
                cs.append(simple("%s_%d_%d" % (op, x, y), p))
    for f in FLTS + [0x4f800000, 0xcf000001, 0x5f000000, 0xdf000000, 0x5f800000, 0x7fffffff, 0xffffffff]:
        p = P(('ENTER', 24), ('CONST', s32(f)), 'CVFI', 'POP', ('CONST', 3), ('LEAVE', 24))
        cs.append(simple("cvfi_%x" % f, p))
        for op in FBIN:
            p = P(('ENTER', 24), ('CONST', s32(f)), ('CONST', s32(r.choice(FLTS))), op, ('CONST', s32(r.choice(FLTS))), op, 'POP', ('CONST', 3),
                  ('LEAVE', 24))
            cs.append(simple("%s_%x" % (op, f), p))
    cs += progs(r, "d", 250 if q else 3000, div0=.03)
    cs += progs(r, "po", 250 if q else 3000, poison=.06, under=.02)
    cs += progs(r, "dn", 100 if q else 1500, div0=.03, nest=.3)
    return cs


# ------------------------------------------------------------------- V05
HOFF = dict(magic=0, n=4, co=8, cl=12, do=16, dl=20, ll=24, bl=28)


def small_image(r):
    p = P(('ENTER', 24), ('CONST', rint(r)), ('CONST', rint(r)), (r.choice(IBR), 6), ('CONST', 1), ('LEAVE', 24), ('CONST', 5), ('ARG', 8),
          ('CONST', -1), 'CALL', ('LEAVE', 24))
    d = bytes(r.getrandbits(8) for _ in range(r.choice([0, 4, 8, 13])))
    l = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 5])))
    return p, d, l


def loadcase(cid, img, n=None, call=True):
    c = Case(cid)
    c.img(img, n)
    c.create()
    if call:
        c.call(1, 1)
    c.free()
    c.create()      # again: the image must be as before
    c.free()
    return c


def v05(r, q):
    cs = []
    BIG = [0x7fffffff, 0x7ffffffe, -0x80000000, -1, -2, -4, 0x40000000, 0x7fffff00, 1 << 24, 0x3ffffff0, -0x7fffffff, 0x7fffffe0, 0x400000, 10485760,
           10485761, 4194304]

    def put(img, **kw):
        b = bytearray(img)
        for k, v in kw.items():
            struct.pack_into("<I", b, HOFF[k], v & 0xffffffff)
        return bytes(b)

    n = 0
    for rep in range(2 if q else 12):
        p, d, l = small_image(r)
        img = image(p, d, l, bss=r.choice([0, 8, 100]), gap=r.choice([0, 3]))
        co, cl, do, dl, ll, bl = struct.unpack_from("<6i", img, 8)
        cnt = len(p.ins)
        L = len(img)
        # one field at a time, around every meaningful value
        for k, vals in dict(magic=[0, 0x12721443, 0x12721445, 0x44147212, 0x12721400, 0x00721444, -0x6d8debbc],
                            n=[0, 1, cnt - 1, cnt, cnt + 1, cl, cl + 1, cnt - 5] + BIG,
                            co=[0, 1, 4, 31, 32, 33, co - 1, co + 1, L - cl, L - cl + 1, L, L - 1, L + 1] + BIG,
                            cl=[0, 1, 2, cl - 1, cl - 4, cl + 1, L - co, L - co + 1, L - co - 1] + BIG,
                            do=[0, 1, 32, L, L - dl - ll, L - dl - ll + 1, L + 1, do - 1] + BIG,
                            dl=[0, 1, 2, 3, L - do, L - do - ll, L - do - ll + 1, dl + 1] + BIG,
                            ll=[0, 1, L - do, L - do - dl, L - do - dl + 1] + BIG,
                            bl=[0, 1, 2, 3, 100, 10485759] + BIG).items():
            for v in vals:
                if k == "bl" and 5000 < v <= 10485760 and q and rep:
                    continue
                n += 1
                big = k == "bl" and 5000 < v <= 10485760
                if big:
                    continue
                cs.append(loadcase("h%d-%s%d" % (rep, k, v), put(img, **{k: v})))
        # two fields
        for _ in range(120 if q else 1500):
            kk = r.sample([k for k in HOFF if k not in ("magic", "bl")], 2)
            vv = {}
            for k in kk:
                cur = struct.unpack_from("<i", img, HOFF[k])[0]
                vv[k] = r.choice([0, 1, cur, cur + 1, cur - 1, L, -cur] + BIG)
            n += 1
            cs.append(loadcase("hh%d" % n, put(img, **vv)))
        # sums that wrap
        for a in (0x7fffffff, 0x7ffffff0, 0x40000000, -0x80000000, 0x7fffffff - L, 0x7fffffff - cl + 1, 0x7fffffff - dl + 1):
            for kw in (dict(co=a), dict(co=a, cl=0x7fffffff - (a & 0x7fffffff) + 2), dict(do=a), dict(do=a, dl=0x7fffffff), dict(dl=a, ll=a),
                       dict(dl=0x7fffffff, ll=0x7fffffff, do=2), dict(dl=a, ll=-a), dict(do=0x40000000, dl=0x40000000, ll=0x7fffffff),
                       dict(do=32, dl=0x7fffffff, ll=0x7fffffff), dict(cl=0x7fffffff, co=1), dict(dl=a, ll=2), dict(ll=a, dl=2)):
                n += 1
                cs.append(loadcase("s%d" % n, put(img, **kw)))
        # truncations: declared length, with and without the bytes behind it
        for t in range(0, L + 1):
            if t > 40 and q and r.random() < .5:
                continue
            n += 1
            cs.append(loadcase("t%d-%d" % (rep, t), img[:t]))
            if r.random() < .3:
                cs.append(loadcase("tt%d-%d" % (rep, t), img, t))
        for t in (-1, -0x80000000, -32, 0, 4194305, 0x7fffffff, 32):
            cs.append(loadcase("n%d-%d" % (rep, t), img, t))
        # random byte changes
        for _ in range(150 if q else 3000):
            b = bytearray(img)
            for _ in range(r.choice([1, 1, 1, 2, 4])):
                b[r.randrange(len(b))] = r.choice([0, 255, 1, r.getrandbits(8)])
            n += 1
            if struct.unpack_from("<i", b, 28)[0] > 4000:
                struct.pack_into("<i", b, 28, 64)
            cs.append(loadcase("b%d" % n, bytes(b)))
    # each opcode byte at the last and in the middle position, operands cut
    for op in range(256):
        if q and op > 64 and r.random() < .7:
            continue
        k = 4 if op in WORD else 1 if op == 33 else 0
        for cut in range(0, k + 1):
            code = bytes([3, 24, 0, 0, 0, op]) + bytes(k - cut)
            cs.append(loadcase("o%d-%d" % (op, cut), image((code, 2), bss=16)))
            if cut == 0:
                cs.append(loadcase("om%d" % op, image((code + bytes([4, 24, 0, 0, 0]), 3), bss=16)))
        # more instructions than code, code longer than instructions
        code = bytes([op]) + bytes(k)
        cs.append(loadcase("on%d" % op, image((code, 2), bss=16)))
        cs.append(loadcase("ol%d" % op, image((code + b"\xff\xff", 1), bss=16)))
    # branch targets
    for op in range(11, 27):
        for t in (0, 1, 2, 3, 4, -1, -0x80000000, 0x7fffffff, 5, 255, 65536):
            if q and r.random() < .4:
                continue
            p = P(('ENTER', 24), (op, t), ('LEAVE', 24))
            cs.append(loadcase("bt%d_%d" % (op, t), image(p, bss=16)))
    for _ in range(150 if q else 3000):   # random code bytes
        code = bytes(r.choice([r.getrandbits(8), r.randrange(60), 0]) for _ in range(r.randint(1, 30)))
        n += 1
        cs.append(loadcase("rc%d" % n, image((code, r.randint(1, 8)), bss=16)))
    # NULL image, NULL callback
    c = Case("null")
    p, d, l = small_image(r)
    c.img(image(p, d, l, 16))
    c.ops = [[10, 1], [9, 1], [2, 1, 0], [1, 1, 1, 0], [2, 1, 0], [3, 1], [8, 1, 0], [10, 2], [3, 2]]
    cs.append(c)
    return cs


# ------------------------------------------------------------------- V06
def dumpcase(r, cid, img):
    c = Case(cid)
    c.img(img)
    c.create()
    c.dump()
    c.call(1, 3, 4)
    c.dump()
    c.free()
    return c


def v06(r, q):
    cs = []
    for k in range(300 if q else 4000):
        nd, nl = r.choice([0, 1, 2, 3, 4, 5, 8, 40, r.randint(0, 100)]), r.choice([0, 1, 2, 3, 4, 7, r.randint(0, 60)])
        bs = r.choice([0, 1, 2, 3, 4, 100, 128 - nd - nl, 64 - nd - nl, 65 - nd - nl, 129 - nd - nl, r.randint(0, 1500)])
        bs = max(bs, 0)
        d = bytes(r.getrandbits(8) for _ in range(nd))
        l = bytes(r.getrandbits(8) for _ in range(nl))
        p = Prog()
        p('ENTER', FRAME)
        for _ in range(r.randint(0, 8)):
            p('CONST', r.randrange(0, max(1, nd + nl + bs)))
            p(r.choice(["LOAD1", "LOAD2", "LOAD4"]))
            p('ARG', 8)
            p('CONST', -1)
            p('CALL')
            p('POP')
        # instruction numbering: jump over something
        p('CONST', len(p.ins) + 5)
        p('JUMP')
        p('CONST', -7)
        p('ARG', 12)
        p('IGNORE')
        p('CONST', rint(r))
        p('LEAVE', FRAME)
        lay = r.randrange(5)
        code = p.encode()
        kw = {}
        if lay == 0:
            kw = dict(gap=r.randint(0, 9))
        elif lay == 1:     # data first
            do = 32 + r.randint(0, 5)
            kw = dict(do=do, co=do + nd + nl + r.randint(0, 5))
        elif lay == 2:     # code shifted
            kw = dict(co=32 + r.randint(0, 7), gap=r.randint(0, 3))
        elif lay == 3:     # trailing bytes
            kw = dict(tail=bytes(r.getrandbits(8) for _ in range(r.randint(1, 40))))
        img = image(p, d, l, bs, pad=r.choice([0, 0, 2]), **kw)
        if lay == 4 and nd + nl <= len(code):   # data overlaps the code
            img = image(p, b"", b"", bs)
            b = bytearray(img)
            struct.pack_into("<iiii", b, 16, 32 + r.randint(0, len(code) - nd - nl), nd, nl, bs)
            img = bytes(b)
        cs.append(dumpcase(r, "lay%d" % k, img))
    for k in range(12):     # data from the header itself
        p = P(('ENTER', 24), ('CONST', 1), ('LEAVE', 24))
        img = bytearray(image(p, b"", b"", 30))
        struct.pack_into("<iii", img, 16, r.randint(0, 20), r.choice([0, 4, 8, 11]), r.randint(0, 9))
        cs.append(dumpcase(r, "hdr%d" % k, bytes(img)))
    cs += progs(r, "j", 60 if q else 600, jumps=.02)
    return cs


# ------------------------------------------------------------------- V07
def echo(r, n=13):
    """entry function that reports its parameters and keeps a counter"""
    p = Prog()
    p('ENTER', FRAME)
    idx = list(range(n))
    r.shuffle(idx)
    k = 0
    for i in idx[:r.randint(3, n)]:
        p('LOCAL', FRAME + 8 + 4 * i)
        p('LOAD4')
        p('ARG', 8 + 4 * k)
        k += 1
    p('CONST', -1)
    p('CALL')
    p('POP')
    p('CONST', 16)
    p('CONST', 16)
    p('LOAD4')
    p('LOCAL', FRAME + 8)
    p('LOAD4')
    p(r.choice(['ADD', 'BXOR', 'SUB']))
    p('STORE4')
    if r.random() < .3:     # overwrite a parameter
        p('LOCAL', FRAME + 8 + 4 * r.randrange(13))
        p('CONST', rint(r))
        p('STORE4')
    p('CONST', 16)
    p('LOAD4')
    if r.random() < .5:
        p('LOCAL', FRAME + 8 + 4 * r.randrange(13))
        p('LOAD4')
        p(r.choice(['ADD', 'BXOR', 'SUB']))
    p('LEAVE', FRAME)
    return p


def v07(r, q):
    cs = []
    for k in range(250 if q else 3000):
        c = Case("echo%d" % k)
        p = echo(r)
        d, l, b = seg(r, r.choice([256, 512, 1024]))
        c.img(image(p, d, l, b))
        c.create()
        for _ in range(r.randint(1, 6)):
            c.call(1, *[rint(r) for _ in range(13)])
            if r.random() < .2:
                c.dump()
        c.dump()
        if r.random() < .3:
            c.free()
            c.create()
            c.call(1, *[rint(r) for _ in range(13)])
        c.free()
        cs.append(c)
    cs += [prog_case(r, "p%d" % i, Gen(r, nest=.1, wild=.03), ncalls=r.randint(2, 6)) for i in range(300 if q else 3000)]
    return cs


# ------------------------------------------------------------------- V08
def v08(r, q):
    cs = []
    nums = [0, 1, 15, 16, 17, 100, 255, 256, 32767, 65535, 65536, 1000000, 0x7fffffff, 0x7ffffffe, 14, 13, 12]
    for k in range(250 if q else 3000):
        p = Prog()
        p('ENTER', FRAME)
        depth = r.choice([0, 0, 1, 2, 5, 20])
        for i in range(depth):
            p('CONST', rint(r))
        for _ in range(r.randint(1, 5)):
            for j in range(r.randint(0, 15)):
                p('CONST', rint(r))
                p('ARG', 8 + 4 * j)
            p('CONST', -1 - r.choice(nums))
            p('CALL')
            w = r.random()
            if w < .3:
                p('POP')
            elif w < .6:
                p('ARG', 8)
            elif w < .8:
                p('CONST', rint(r))
                p('ADD')
                p('ARG', 12)
            else:
                p('CONST', 20)
                p('LOAD4')
                p('BXOR')
                p('ARG', 16)
        for i in range(depth):   # the operands below must be intact
            p('ARG', 8)
            p('CONST', -16)
            p('CALL')
            p('POP')
        # direct use of the result as a value, locals intact
        p('LOCAL', FRAME + 8)
        p('LOAD4')
        p('LEAVE', FRAME)
        d, l, b = seg(r, r.choice([256, 512]))
        cs.append(simple("sys%d" % k, p, b, d, l, calls=[[rint(r) for _ in range(13)]] * r.randint(1, 2)))
    cs += progs(r, "h", 300 if q else 3000, host=.7)
    cs += progs(r, "hw", 150 if q else 2000, host=.7, wild=.15)
    cs += progs(r, "n", 150 if q else 2000, host=.4, nest=.3)
    return cs


# ------------------------------------------------------------------- V09
ERRS = [[('CONST', 1), ('CONST', 0), 'DIVI'], [('CONST', 0), ('CONST', 0), 'MODU'], ['UNDEF'], [('CONST', 5000), 'JUMP'], [('CONST', 4000), 'CALL'],
        [('LOCAL', 0), ('CONST', -5), 'STORE4']]


def nester(r):
    """Entry function f(cmd, n, ...): calls itself through the host n times,
    keeps locals and operands across, may fail at the bottom."""
    p = Prog()
    fr = FRAME + 4 * r.randint(0, 4)
    p('ENTER', fr)
    a = rint(r)
    p('LOCAL', 76)
    p('CONST', a)
    p('STORE4')
    # bottom?
    at = len(p.ins) + 3
    p('LOCAL', fr + 12)
    p('LOAD4')
    p('CONST', 0)
    p('GTI', 0)
    kind = r.randrange(8)
    if kind < 6:
        for i in ERRS[kind]:
            p(*i) if isinstance(i, tuple) else p(i)
        if kind == 5:
            p('LOCAL', fr)
            p('CONST', -7)
            p('STORE4')
    elif kind == 6:
        p('POP')        # operand stack error
    p('CONST', rint(r))
    p('LEAVE', fr)
    p.ins[at] = (NUM['GTI'], len(p.ins))
    nlive = r.randint(0, 4)
    for _ in range(nlive):
        p('CONST', rint(r))
    for rep in range(r.randint(1, 2)):
        p('CONST', r.randint(0, 99))
        p('ARG', 8)
        p('LOCAL', fr + 12)
        p('LOAD4')
        p('CONST', 1)
        p('SUB')
        p('ARG', 12)
        for j in range(2, r.randint(2, 13)):
            p('CONST', rint(r))
            p('ARG', 8 + 4 * j)
        p('CONST', -8)
        p('CALL')
        p('ARG', 8)
        p('LOCAL', 76)
        p('LOAD4')
        p('ARG', 12)
        p('LOCAL', fr + 8)
        p('LOAD4')
        p('ARG', 16)
        p('CONST', -17)
        p('CALL')
        p('POP')
    for _ in range(nlive):
        p('ARG', 8)
        p('CONST', -18)
        p('CALL')
        p('POP')
    p('CONST', 24)
    p('CONST', 24)
    p('LOAD4')
    p('CONST', 1)
    p('ADD')
    p('STORE4')
    p('CONST', 24)
    p('LOAD4')
    p('LEAVE', fr)
    return p


def v09(r, q):
    cs = []
    for k in range(250 if q else 3000):
        c = Case("nest%d" % k)
        p = nester(r)
        c.img(image(p, bss=r.choice([2048, 4096])))
        c.create()
        for _ in range(r.randint(1, 5)):
            c.call(1, rint(r), r.randint(0, 3), rint(r))
        c.dump()
        c.free()
        cs.append(c)
    # many failing calls in a row: nothing may be used up
    for k, e in enumerate(ERRS):
        p = P(('ENTER', 40), ('LOCAL', 48), 'LOAD4', ('CONST', 0), ('EQ', 7), ('CONST', 77), ('LEAVE', 40), *e)
        if k == 5:
            p = P(('ENTER', 40), ('LOCAL', 48), 'LOAD4', ('CONST', 0), ('EQ', 7), ('CONST', 77), ('LEAVE', 40), ('LOCAL', 40), ('CONST', -5), 'STORE4',
                  ('CONST', 3))
        p('LEAVE', 40)
        for inner in (0, 1):
            c = Case("many%d-%d" % (k, inner))
            if inner:   # the failure happens in a nested call
                pp = P(('ENTER', 80), ('LOCAL', 88), 'LOAD4', ('CONST', 2), ('NE', 12), ('CONST', 0), ('ARG', 8), ('CONST', 0), ('ARG', 12),
                       ('CONST', -8), 'CALL', ('LEAVE', 80))
                off = len(pp.ins)
                for op, a in p.ins[1:]:
                    if op == NUM['EQ']:
                        a = a - 1 + off
                    if op == NUM['LOCAL'] and a == 48:
                        a = 88
                    if op == NUM['LOCAL'] and a == 40:
                        a = 80
                    if op == NUM['LEAVE']:
                        a = 80
                    pp.ins.append((op, a))
                p2 = pp
            else:
                p2 = p
            c.img(image(p2, bss=1024))
            c.create()
            for j in range(40):
                c.call(1, (2 if inner else 0) if j % 8 != 7 else 1)
            c.dump()
            c.free()
            cs.append(c)
    cs += progs(r, "n", 250 if q else 3000, nest=.4, sizes=(512, 1024))
    cs += progs(r, "nd", 250 if q else 3000, nest=.4, div0=.03, jumps=.01, sizes=(512, 1024))
    return cs


# ------------------------------------------------------------------- V10
def v10(r, q):
    cs = []
    # every history of a few operations over two VMs with an allocation
    # failure anywhere is enumerated by the specification (Lifecycle.tla);
    # here: random longer histories with guests that create, call and free
    good, d, l = small_image(r)
    nest = Gen(r, nest=.6, nestops=(7, 8, 9, 10, 11, 11, 10, 8), nvm=3, size=1024)
    for k in range(350 if q else 5000):
        c = Case("life%d" % k)
        imgs = []
        for _ in range(2):
            g = Gen(r, nest=.5, nestops=(7, 8, 9, 10, 11, 11, 10, 8), nvm=3, len=12, div0=.01)
            g.size = 1024
            c.img(image(g.program(), bss=1024))
        c.img(image((bytes([3, 0, 0, 0, 0, 77]), 2), bss=16))     # bad opcode
        bad = bytearray(image(P(('ENTER', 8), ('LEAVE', 8)), bss=16))
        struct.pack_into("<i", bad, 4, -1)
        c.img(bytes(bad))
        live = set()
        for _ in range(r.randint(3, 14)):
            vm = r.randint(1, 3)
            w = r.random()
            if w < .35 and vm not in live:
                im = r.choice([1, 1, 2, 2, 3, 4])
                fail = r.choice([0, 0, 0, 1, 2, 3, 4])
                c.create(vm, im, fail)
                if im <= 2 and not 1 <= fail <= 3:
                    live.add(vm)
            elif w < .65:
                c.call(vm, r.randint(0, 9), r.randint(0, 6))
            elif w < .85:
                c.free(vm)
                live.discard(vm)
            elif w < .9:
                c.ops.append([8, 1, r.randrange(5)])
            elif w < .93 and vm not in live:
                c.ops.append([r.choice([9, 10]), vm])
            else:
                c.dump(vm)
        # guests may have created VMs: the specification tracks them; free all
        for vm in (1, 2, 3):
            c.free(vm)
        cs.append(c)
    return cs


# ------------------------------------------------------------------- V11
def v11(r, q):
    cs = []
    k = 0
    for size in [1, 2, 3, 4, 8, 16, 64, 100, 256, 1024]:
        p = P(('ENTER', 24), ('CONST', 1), ('LEAVE', 24))
        real = 1
        while real < size:
            real *= 2
        addrs = edgeaddrs(real) + [rint(r) for _ in range(10)]
        c = Case("ptr%d" % size)
        c.img(image(p, bss=size))
        c.create()
        for a in addrs:
            c.ops.append([5, 1, a])
        c.ops += [[7, 1, s32(f)] for f in FLTS + [rflt(r) for _ in range(20)] + [rint(r) for _ in range(20)]]
        c.free()
        cs.append(c)
        lens = sorted({0, 1, 2, 3, 4, real // 2, real - 2, real - 1, real, real + 1, real * 2} | {0x7fffffff, 65536})
        vals = [(0, x) for x in lens] + [(0, -x) for x in (1, 2, 4, real, 0x80000000)] + \
               [(-1, s32(-x)) for x in (1, 2, 3, 4, real - 1, real, real + 1)] + [(1, x) for x in (0, 1, 4)] + \
               [(-0x80000000, 0), (-0x80000000, 1), (0x7fffffff, -1), (0, -0x80000000), (-1, -0x80000000)]
        ahis = [(0, a) for a in addrs] + [(1, 4), (-1, 4), (-1, -1), (1, 0), (-0x80000000, 8), (0x7fffffff, -4), (-1, -real)]
        tests = [(a, n) for a in ahis for n in vals]
        # exhaustive inside small segments
        if real <= 16:
            tests += [((0, a), (0, n)) for a in range(real + 3) for n in range(real + 3)]
        tests = r.sample(tests, min(len(tests), 500 if q else 4000))
        for j in range(0, len(tests), 100):
            k += 1
            c = Case("range%d-%d" % (size, k))
            c.img(image(p, bss=size))
            c.create()
            for a, n in tests[j:j + 100]:
                c.ops.append([6, 1, a[0], s32(a[1]), n[0], s32(n[1])])
            c.free()
            cs.append(c)
    # guest-supplied ranges used by callbacks
    for i in range(150 if q else 2000):
        p = Prog()
        p('ENTER', FRAME)
        size = r.choice([64, 256])
        for _ in range(r.randint(2, 8)):
            num = r.choice([2, 3, 4, 5, 6])
            a = [r.choice(edgeaddrs(size) + list(range(4, 40, 5)))for _ in range(2)]
            n = r.choice([0, 1, 4, 8, 20, size - 1, size, -1, -4, -8, -size, 0x7fffffff, -0x80000000, size - a[0], size - a[0] - 1, size - a[0] + 1])
            args = [a[0], a[1], n]
            if num == 4:
                args = [a[0], n, 0]
            if num in (2, 5):
                args[1] = rint(r)
            emit(p, 8, num, args)
            p('POP')
        p('CONST', 1)
        p('LEAVE', FRAME)
        cs.append(simple("g%d" % i, p, bss=size))
    return cs


# ------------------------------------------------------------------- V12
def v12(r, q):
    k = 1 if q else 10
    cs = optable_cases(r, q)[:: 1 if not q else 2]
    cs += progs(r, "p", 250 * k) + progs(r, "j", 120 * k, jumps=.05) + progs(r, "n", 100 * k, nest=.4) + progs(r, "w", 120 * k, wild=.15)
    cs += progs(r, "d", 60 * k, div0=.03, poison=.02)
    return cs


# ------------------------------------------------------------------- V13
def interleave(r, cid, nvm=3):
    c = Case(cid)
    for _ in range(nvm):
        g = Gen(r, nest=.3, nestops=(9, 9, 7), nvm=nvm, len=15, wild=r.choice([0, 0, .1]), under=.02, poison=.02)
        g.size = r.choice([256, 512])
        d, l, b = seg(r, g.size)
        c.img(image(g.program(), d, l, b))
    live = set()
    for _ in range(r.randint(4, 14)):
        v = r.randint(1, nvm)
        if v not in live:
            c.create(v, r.randint(1, nvm))
            live.add(v)
        elif r.random() < .7:
            c.call(v, r.randint(0, 9), r.randint(0, 4), *[rint(r) for _ in range(6)])
        elif r.random() < .6:
            c.dump(v)
        else:
            c.free(v)
            live.discard(v)
    for v in sorted(live):
        c.dump(v)
        c.free(v)
    return c


def peekstack(r, cid):
    """look at operand stack slots never written, and at memory never written"""
    p = Prog()
    p('ENTER', FRAME)
    for _ in range(r.randint(1, 6)):
        w = r.randrange(4)
        if w == 0:
            n = r.randint(1, 100)
            for _ in range(n):
                p('PUSH')
            p('ARG', 8)
            p('CONST', -2)
            p('CALL')
            for _ in range(n):
                p('POP')
        elif w == 1:
            n = r.randint(1, 100)
            for _ in range(n):
                p('POP')
            p('ARG', 8)
            p('CONST', -2)
            p('CALL')
            for _ in range(n):
                p('PUSH')
        elif w == 2:
            p('LOCAL', r.randint(-100, 300))
            p('LOAD4')
            p('ARG', 8)
            p('CONST', -2)
            p('CALL')
            p('POP')
        else:
            p('PUSH')
            p('PUSH')
            p(r.choice(["ADD", "BXOR", "SUBF", "LSH", "CVFI", "STORE4", "EQ" if 0 else "BOR"]))
            p('ARG', 8)
            p('CONST', -2)
            p('CALL')
            p('POP')
    p('CONST', 1)
    p('LEAVE', FRAME)
    return simple(cid, p, bss=r.choice([64, 256, 512]), calls=((1,), (2,)))


def v13(r, q):
    k = 1 if q else 10
    cs = [interleave(r, "il%d" % i) for i in range(350 * k)]
    cs += [peekstack(r, "pk%d" % i) for i in range(120 * k)]
    cs += progs(r, "u", 150 * k, poison=.08, under=.05) + progs(r, "j", 120 * k, jumps=.08) + progs(r, "w", 100 * k, wild=.2)
    return cs


# ------------------------------------------------------------------- V14
def v14(r, q):
    cs = []
    # recursion into the limit of the reserved stack
    for size in (1 << 17,):
        for fr in [4096, 8192, 16384, 32768, 65536 - 64, 65536 - 60, 65536 - 56, 65536, 10000, 12344]:
            for deep in (1, 3, 30):
                p = P(('ENTER', fr), ('LOCAL', fr + 12), 'LOAD4', ('CONST', 1), ('LEI', 13), ('LOCAL', fr + 12), 'LOAD4', ('CONST', 1), 'SUB',
                      ('ARG', 12), ('CONST', 0), 'CALL', ('LEAVE', fr), ('CONST', 8), ('LEAVE', fr))
                cs.append(simple("rec%d-%d" % (fr, deep), p, bss=size, calls=((1, deep), (1, 1), (1, deep + 1)), dump=False))
        for f in range(65536 - 72, 65536 - 48):
            p = P(('ENTER', f), ('CONST', 8), ('LEAVE', f))
            cs.append(simple("lim%d" % f, p, bss=size, calls=((1,), (2,)), dump=False))
    # misaligned stack pointers and loads
    for f in list(range(0, 12)) + [-1, -2, -4, 21, 22, 23, 24, 25]:
        p = P(('ENTER', 40), ('CONST', 5), ('ENTER', f), ('CONST', 4), 'ADD', ('LEAVE', f), 'POP')
        p = P(('ENTER', 40), ('CONST', 5), ('CONST', 6), 'CALL', ('LEAVE', 40), 'IGNORE', ('ENTER', f + 16), ('CONST', 9), 'STORE4' if 0 else 'IGNORE',
              ('LEAVE', f + 16))
        cs.append(simple("mis%d" % f, p, bss=256))
    for op in ("LOAD4", "LOAD2", "LOAD1", "STORE4", "STORE2", "STORE1"):
        for a in list(range(0, 9)) + [-1, -2, -3, -4, 0x7fffffff, 0x7ffffffc, -0x80000000, 255, 256, 257]:
            p = P(('ENTER', 24), ('CONST', a))
            if op[0] == 'S':
                p('CONST', rint(r))
                p(op)
                p('CONST', 3)
            else:
                p(op)
                p('ARG', 8)
                p('CONST', -2)
                p('CALL')
            p('LEAVE', 24)
            cs.append(simple("al%s%d" % (op, a), p, bss=256))
    k = 1 if q else 10
    cs += progs(r, "p", 250 * k) + progs(r, "w", 150 * k, wild=.1, aligned=.5) + progs(r, "n", 100 * k, nest=.4) + progs(r, "j", 100 * k, jumps=.05)
    return cs
# ------------------------------------------------------------------- V15
class PCase(Case):
    """A case with files around the module and captured debug output."""

    def __init__(self, cid):
        Case.__init__(self, cid)
        self.mods, self.files = [], []

    def mod(self, path):
        self.mods.append(path)
        return len(self.mods)

    def file(self, path, data, wild=False):
        self.files.append((path, data if isinstance(data, bytes) else data.encode(), wild))

    def create(self, vm=1, img=1, fail=0, mod=0):
        self.ops.append([1, vm, img, fail, mod])

    def profile(self, vm=1, fail=0):
        self.ops.append([11, vm, fail])

    def debug(self, lvl):
        self.ops.append([12, 1, lvl])

    def text(self):
        ls = Case.text(self).split("\n", 1)
        ls[1:1] = ["MOD " + m for m in self.mods] + ["FILE %s %s" % (p, b.hex()) for p, b, _ in self.files]
        return "\n".join(ls)

    def obj(self):
        o = Case.obj(self)
        o["mods"] = [list(m.encode()) for m in self.mods]
        o["files"] = [dict(p=list(p.encode()), b=[] if w else list(b), wild=w) for p, b, w in self.files]
        return o

    def split(self, lg):
        """interface events, trace lines"""
        evs, tr = [], []
        for e in lg:
            if e[0] in (20, 21, 22, 23):
                tr.append(dict(k=e[0], pos=len(evs), ofs=e[1], s=e[2:]))
            else:
                evs.append(e)
        return evs, tr


MODS = ["m.qvm", "./m.qvm", "../m.qvm", "dir/m.qvm", "m.x.qvm", "a.b/m.qvm", "a.b/m", "m", "../a.b/../m.qvm", "./a.b/c.d.e", ".m/x.qvm", "m.QVM",
        "m.map.qvm", "dir.d/sub/m-1_2.qvm", "a.b/.hid.qvm"]


def mapof(m):
    d, b = m.rsplit("/", 1) if "/" in m else (None, m)
    b = b.rsplit(".", 1)[0] + ".map"
    return b if d is None else d + "/" + b


def names(r, n):
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
    out = []
    for k in range(n):
        w = r.choice(["f", "vmMain", "G_", "_", "x" * r.choice([1, 2, 60, 200, 900])]) + "".join(r.choice(al) for _ in range(r.randint(0, 8)))
        out.append(r.choice(out) if out and r.random() < .05 else w)
    return out


def maptext(r, entries):
    """entries: (segment, value, name); in the style of the assembler or freely laid out"""
    q3 = r.random() < .5
    s = ""

    def ws():
        k = r.random()
        if k < .6:
            return r.choice([" ", "\t", "  ", "\n", "\r\n"])
        if k < .7:
            return " // x y 0 1 z\n"
        if k < .8:
            return "/* 0 1 no \n \" */" if s[-1:] in " \t\n" else "\n/* * / /**/"
        if k < .85:
            return "\n//\n"
        if k < .9:
            return " /**/ "
        return " " * r.randint(1, 20)
    if not q3:
        s += r.choice(["", "", "\n", "// map\n", "/* map */", "  "])
    for g, v, n in entries:
        if q3:
            s += "%i %8x %s\n" % (g, v, n)
        else:
            s += r.choice(["%x", "%X", "%02x"]) % g
            s += ws()
            s += r.choice(["%x", "%X", "%07x"]) % v
            s += ws()
            if r.random() < .1 and " " not in n:
                s += '"%s"' % n
            else:
                s += n
            s += ws()
            if r.random() < .5 and s[-1] not in "\n":
                s += "\n"
    if not q3 and r.random() < .5:
        s = s.rstrip()
        if r.random() < .3:
            s += r.choice([" /*", " //", "\n// end", " /* *"])
    return s


def mapentries(r, p, full=False):
    starts = [k for k, (op, _) in enumerate(p.ins) if op == NUM["ENTER"]]
    vals = {0} | {k for k in starts if full or r.random() < .85}
    if r.random() < .15:
        vals.add(r.randrange(len(p.ins)))
    vals = sorted(vals)
    if r.random() < .15:
        vals.append(r.choice([len(p.ins), len(p.ins) + 1, 0x100000, 0x7fffff]) + 0x8000)
    es = [(0, v, n) for v, n in zip(vals, names(r, len(vals)))]
    k = 0
    for _ in range(r.choice([0, 0, 1, 3, 8])):      # data symbols, mostly behind, sometimes between
        k = len(es) if r.random() < .6 else r.randint(0, len(es))
        es.insert(k, (r.choice([1, 2, 3, 4, 15, 16]), r.choice([0, 4, 8, rint(r) & 0xffffff]), "d%d" % k))
    if r.random() < .1:
        es = es[:1]
    return es


def wildmap(r, p):
    t = bytearray(maptext(r, mapentries(r, p)).encode())
    k = r.randrange(9)
    if k == 0:
        return bytes(r.getrandbits(8) for _ in range(r.choice([1, 2, 3, 15, 16, 17, 100, 5000])))
    if k == 1:
        return bytes(t[:r.randrange(1, len(t) + 1)])
    if k == 2:
        return bytes(t) + b'0 1 "unterminated' + b"x" * r.choice([0, 3, 1020, 1030, 4000])
    if k == 3:
        return b"0 0 " + b"n" * r.choice([1022, 1023, 1024, 1025, 5000]) + b"\n0 1 x\n"
    if k == 4:
        return r.choice([b"0", b"0 ", b"0 1", b"0 1 ", b'"', b'""', b'0 "', b'0 0 ""', b"/", b"/*", b"//", b"/* *", b"0 0 a/", b"0 0 a 0 0 /", b"\0", b" ", b"\n",
                         b'"\0', b"0 0 f\0 0 1 g", b"0 0 a //", b'0 0 a "', b"1", b"1 0", b"1 0 "])
    if k == 5:
        for _ in range(r.randint(1, 12)):
            t[r.randrange(len(t))] = r.choice([0, 9, 10, 34, 42, 47, 48, 255, r.getrandbits(8)])
        return bytes(t)
    if k == 6:      # odd values, odd order
        es = [(0, r.choice([0, 1, 5, 100000, 0xffffffff, 0x80000000, 0x7fffffff, 0xfffffffff]), n) for n in names(r, r.randint(1, 9))]
        r.shuffle(es)
        return maptext(r, es).encode()
    if k == 7:
        return (maptext(r, mapentries(r, p)) * r.choice([2, 40])).encode()
    return b"0x0 zzz hello\n" + bytes(t)


def profcase(r, cid, g, wild=False, nest=False, lvl=None):
    c = PCase(cid)
    g.size = r.choice((256, 512) if not nest else (1024, 2048))
    nvm = r.choice([1, 1, 2])
    ps = []
    for i in range(nvm):
        p = nester(r) if nest and r.random() < .3 else g.program()
        d, l, b = seg(r, g.size if not nest else 2048)
        c.img(image(p, d, l, b, gap=r.choice([0, 0, 3, 4]), pad=r.choice([0, 0, 0, 1, 3])))
        ps.append(p)
    norm = os.path.normpath
    while len({norm(mapof(m)) for m in c.mods}) < nvm:
        c.mods = [r.choice(MODS) for _ in range(nvm)]
    maps = [mapof(m) for m in c.mods]
    have = {norm(f) for f in maps}
    for i in range(nvm):
        if r.random() < .93:
            w = wild and r.random() < .8
            c.file(maps[i], wildmap(r, ps[i]) if w else maptext(r, mapentries(r, ps[i])), w)
    for _ in range(r.choice([0, 1, 2, 4])):     # other files nearby
        x = r.choice(["m.map", "../m.map", "m.x.map", "a.b/m.map", ".map", "a.map", "../.map", "m.qvm.map", "case.map", "dir/m.map", "a"])
        if norm(x) not in have and not any(norm(y).startswith(norm(x) + "/") for y in c.mods):
            have.add(norm(x))
            c.file(x, maptext(r, [(0, 0, "decoy"), (0, 3, "decoy2")]))
    if lvl is None:
        lvl = r.choice([0, 0, 0, 1, 2])
    if r.random() < .1:
        c.profile(r.choice([0, 1]))
    for i in range(nvm):
        c.create(i + 1, i + 1, r.choice([0] * 9 + [3, 4, 5]), i + 1)
    if lvl:
        c.debug(lvl)
    for _ in range(r.randint(1, 4)):
        v = r.randint(1, nvm)
        k = r.random()
        if k < .6:
            if nest:
                c.call(v, rint(r), r.randint(0, 3), *[rint(r) for _ in range(11)])
            else:
                c.call(v, r.randint(0, 40), *[rint(r) for _ in range(12)])
        elif k < .9:
            c.profile(v, r.choice([0] * 9 + [1]))
        else:
            c.debug(r.randint(0, 2))
    for i in range(nvm):
        c.profile(i + 1)
    if r.random() < .3:
        c.free(1)
        c.profile(1)
        c.create(1, r.randint(1, nvm), 0, r.randint(0, nvm))
        c.call(1, 3)
        c.profile(1)
    for i in range(nvm):
        c.dump(i + 1)
        c.free(i + 1)
    return c


def v15(r, q):
    k = 1 if q else 8
    cs = []
    for i in range(260 * k):
        cs.append(profcase(r, "prof%d" % i, Gen(r, nfun=r.choice([1, 3, 5, 7]), len=r.choice([8, 20]))))
    for i in range(90 * k):
        cs.append(profcase(r, "pnest%d" % i, Gen(r, nest=.3, nfun=4, len=12), nest=True))
    for i in range(60 * k):
        cs.append(profcase(r, "perr%d" % i, Gen(r, div0=.03, jumps=.02, wild=.05, nfun=4, len=15)))
    for i in range(140 * k):
        cs.append(profcase(r, "pwild%d" % i, Gen(r, nfun=3, len=8), wild=True))
    for i in range(50 * k):
        cs.append(profcase(r, "ptrace%d" % i, Gen(r, nfun=5, len=15), lvl=r.choice([1, 2, 2])))
    return cs
