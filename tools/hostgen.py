"""Image files for the standalone interpreter (H01)."""
import struct
import vmgen, vmcases
from vmgen import *

TEXT = b"abc XYZ 019 %d%s%n%% \\n\t\n\r\x01\x7f\x80\xff\xe4\"'<>"


def text(r, n):
    return bytes(r.choice(TEXT) for _ in range(n))


class HostGen(Gen):
    """Guests that use the host's system calls.  Strings live at self.strs; the upper quarter of the segment is the stack's."""

    def sysaddr(self):
        r = self.r
        k = r.random()
        if k < .55:
            a = r.choice(self.strs) + r.choice([0, 0, 0, 1, 3])
        elif k < .7:
            a = r.randrange(1, max(2, self.size // 2))
        elif k < .8:
            a = self.size - r.randint(0, 6)
        elif k < .9:
            a = r.choice([0, self.size, self.size + r.choice(self.strs), -self.size + r.choice(self.strs), -r.randint(1, 8), 0x7fffffff, -0x80000000 + r.choice(self.strs)])
        else:
            a = rint(r)
        return a

    def arg(self, p, k, x):
        p('CONST', s32(x))
        p('ARG', 8 + 4 * k)

    def callsome(self, p, st):
        r = self.r
        k = r.random()
        if k < .08 and st["callee"]:
            p('CONST', r.choice(st["callee"]))
            p('CALL')
            st["d"] += 1
            return
        w = r.choice([0, 0, 0, 1, 1, 2, 2, 3, 3, 4] if r.random() < .9 else [4, 5, 1000, 0x7fffffff])
        if w in (0, 1):
            a = self.sysaddr()
            # a null pointer is not a string
            self.arg(p, 0, a or 4)
        elif w in (2, 3):
            n = r.choice([0, 1, 2, 3, 4, 7, 15, 16, r.randint(0, 60)])
            safe = r.random() < .85
            lim = self.size // 2
            a, b = (r.randrange(1, lim - 60), r.randrange(1, lim - 60)) if safe else (self.sysaddr(), self.sysaddr())
            if not safe and r.random() < .5:
                n = r.choice([n, self.size - (a % self.size), self.size - (a % self.size) - 1, self.size - (a % self.size) + 1, self.size, -1, -n, rint(r), 0x7fffffff, -0x80000000])
            self.arg(p, 0, a)
            self.arg(p, 1, r.choice([0, 65, 0x100, 0x141, -1, rint(r)]) if w == 2 else b)
            self.arg(p, 2, n)
        else:
            self.arg(p, 0, rint(r))
        p('CONST', -1 - w)
        p('CALL')
        if w < 2:
            p('POP')      # how much was printed is not specified
        else:
            st["d"] += 1


def guest(r, wild=False, size=None):
    size = size or r.choice([256, 256, 256, 512, 512, 1024, 1024, 4096])
    data = bytearray(b"\0\0\0\0")
    strs = []
    for _ in range(r.randint(1, 5)):
        strs.append(len(data))
        data += text(r, r.choice([0, 1, 2, 5, 9, r.randint(0, 40), r.randint(0, size // 2) if size > 1000 else 3])) + b"\0" * r.choice([1, 1, 2])
    if r.random() < .1:     # a string that runs to the end of the segment and behind it
        strs.append(len(data))
        data += text(r, size - len(data))
    data = bytes(data[:size])
    g = HostGen(r, wild=.1 if wild else 0, jumps=.05 if wild else 0, div0=.02 if wild else 0, size=size, len=r.choice([8, 20, 40]), loopy=.05, nfun=2, flt=.05)
    g.strs = strs
    p = g.program()
    cut = r.randint(0, len(data))
    return image(p, data[:cut], data[cut:], max(0, size - len(data) - r.randint(0, 3)) if len(data) < size else 0, gap=r.choice([0, 0, 3, 4]), pad=r.choice([0, 0, 1, 3]),
                 tail=bytes(r.choice([0, 0, 5])))


def tail(r, size=256):
    """fills the end of the segment, also across the border, and prints from there"""
    p = Prog()
    p('ENTER', FRAME)
    for a in range(size - 12, size):
        if r.random() < .9:
            p('CONST', a)
            p('CONST', r.choice([65, 66, 0x41424344, 0]) if r.random() < .4 else 0x4a4b4c4d)
            p(r.choice(['STORE1', 'STORE2', 'STORE4']))
    p('CONST', size - 1)
    p('CONST', 0x61626364)
    p(r.choice(['STORE4', 'STORE4', 'STORE2', 'STORE1']))
    for _ in range(3):
        emit(p, num=r.choice([0, 0, 1]), args=(size - r.randint(1, 14),))
        p('POP')
    p('CONST', r.randint(0, 300))
    p('LEAVE', FRAME)
    return image(p, b"\0\0\0\0", b"", size - 4 - r.randint(0, 100))


def result(r):
    p = Prog()
    p('ENTER', FRAME)
    p('CONST', r.choice([0, 1, -1, 255, 256, 257, -256, 128, 0x12345600, 0x123456ff, -0x80000000, rint(r)]))
    p('LEAVE', FRAME)
    return image(p, b"", b"", 128)


def silent():
    p = Prog()
    p('ENTER', FRAME)
    p('CONST', 0)
    p('LEAVE', FRAME)
    return image(p, b"", b"", 128)


def many(r):
    """much output, so that buffers are written several times"""
    p = Prog()
    n = r.choice([20, 50, 100])
    k = r.choice([1, 30, 60, 120])
    p('ENTER', FRAME)
    p('CONST', 8)
    p('CONST', 0)
    p('STORE4')
    p.label('l')
    for num in r.sample([0, 0, 1], 2):
        emit(p, num=num, args=(12 + r.choice([0, 1]),))
        p('POP')
    p('CONST', 8)
    p('CONST', 8)
    p('LOAD4')
    p('CONST', 1)
    p('ADD')
    p('STORE4')
    p('CONST', 8)
    p('LOAD4')
    p('CONST', n)
    p('LTI', 'l')
    if r.random() < .5:
        p('CONST', 3)
        p('CONST', 0)
        p(r.choice(['DIVI', 'MODU']))
        p('POP')
    p('CONST', 0)
    p('LEAVE', FRAME)
    return image(p, bytes(12) + text(r, k) + b"\n\0", b"", 256)


def broken(r, pool):
    """a file of the loader's test grid (V05)"""
    return r.choice(pool)


def cases(r, n):
    v05 = []
    for c in vmcases.v05(r, True):
        for b, _ in c.imgs:
            bl = struct.unpack_from("<i", b, 28)[0] if len(b) >= 32 else 0
            if bl <= 5000 and len(b) < 5000:
                v05.append(bytes(b))
    r.shuffle(v05)
    out = [("empty", b""), ("big", result(r) + bytes(4194304)), ("limit", None)]
    img = result(r)
    out[2] = ("limit", img + bytes(4194304 - len(img)))
    out += [("missing", None), ("directory", None), ("noargument", None)]
    for k in range(n):
        w = r.random()
        if w < .15:
            out.append(("file", v05[k % len(v05)]))
        elif w < .6:
            out.append(("guest", guest(r)))
        elif w < .75:
            out.append(("wild", guest(r, True)))
        elif w < .85:
            out.append(("tail", tail(r, r.choice([256, 128, 512]))))
        elif w < .92:
            out.append(("result", result(r)))
        else:
            out.append(("many", many(r)))
    return out
