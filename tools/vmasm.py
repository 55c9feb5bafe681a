"""Building Q3VM images for generated cases."""
import struct
OPS = ("UNDEF IGNORE BREAK ENTER LEAVE CALL PUSH POP CONST LOCAL JUMP EQ NE LTI LEI GTI GEI LTU LEU GTU GEU "
       "EQF NEF LTF LEF GTF GEF LOAD1 LOAD2 LOAD4 STORE1 STORE2 STORE4 ARG BLOCK_COPY SEX8 SEX16 NEGI ADD SUB "
       "DIVI DIVU MODI MODU MULI MULU BAND BOR BXOR BCOM LSH RSHI RSHU NEGF ADDF SUBF DIVF MULF CVIF CVFI").split()
NUM = {n: i for i, n in enumerate(OPS)}
WORD = {3, 4, 8, 9, 34} | set(range(11, 27))


def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


class Prog:
    """Instruction list with labels; operands may be label names."""

    def __init__(self):
        self.ins = []
        self.labels = {}

    def here(self):
        return len(self.ins)

    def label(self, n):
        self.labels[n] = len(self.ins)

    def __call__(self, op, arg=None):
        self.ins.append((NUM[op] if isinstance(op, str) else op, arg))
        return self

    def encode(self):
        b = bytearray()
        for op, arg in self.ins:
            b.append(op & 255)
            if isinstance(arg, str):
                arg = self.labels[arg]
            if op in WORD:
                b += struct.pack("<I", (arg or 0) & 0xffffffff)
            elif op == 33:
                b.append((arg or 0) & 255)
        return bytes(b)


def image(code, data=b"", lit=b"", bss=0, n=None, pad=0, magic=0x12721444, co=None, do=None, gap=0, tail=b"", **over):
    """Assemble an image; code: Prog or (bytes, count)."""
    if isinstance(code, Prog):
        cb, cnt = code.encode(), len(code.ins)
    else:
        cb, cnt = code
    cb = cb + bytes(pad)
    if n is not None:
        cnt = n
    co = 32 if co is None else co
    do = co + len(cb) + gap if do is None else do
    h = dict(magic=magic, n=cnt, co=co, cl=len(cb), do=do, dl=len(data), ll=len(lit), bl=bss)
    h.update(over)
    size = max(co + len(cb), do + len(data) + len(lit))
    img = bytearray(max(size, 32))
    img[do:do + len(data) + len(lit)] = data + lit
    img[co:co + len(cb)] = cb
    img[0:32] = struct.pack("<8I", *[h[k] & 0xffffffff for k in ("magic", "n", "co", "cl", "do", "dl", "ll", "bl")])
    return bytes(img) + tail


class Case:
    def __init__(self, cid):
        self.id = cid
        self.imgs = []
        self.ops = []

    def img(self, b, n=None):
        self.imgs.append((bytes(b), len(b) if n is None else n))
        return len(self.imgs)

    def create(self, vm=1, img=1, fail=0):
        self.ops.append([1, vm, img, fail])

    def call(self, vm=1, *args):
        a = list(args)[:13]
        self.ops.append([2, vm] + [s32(x) for x in a] + [0] * (13 - len(a)))

    def free(self, vm=1):
        self.ops.append([3, vm])

    def dump(self, vm=1):
        self.ops.append([4, vm])

    def text(self):
        ls = ["CASE " + self.id]
        for b, n in self.imgs:
            ls.append("IMG %d %s" % (n, b.hex()))
        for o in self.ops:
            ls.append("OP " + " ".join(map(str, o)))
        return "\n".join(ls) + "\n"

    def obj(self):
        # 16 fixed fields, as the harness reads them
        return dict(id=self.id, imgs=[dict(b=list(b), n=n) for b, n in self.imgs],
                    ops=[o + [0] * (16 - len(o)) for o in self.ops])
