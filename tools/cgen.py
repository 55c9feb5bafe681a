"""Random C programs as syntax trees (the cases of CSem.tla) and their text."""
import struct

CHAR, UCHAR, SHORT, USHORT, INT, UINT, FLOAT, VOID, SCHAR, LONG, ULONG, DOUBLE = range(1, 13)
INTS = [CHAR, UCHAR, SHORT, USHORT, INT, UINT, SCHAR, LONG, ULONG]
BOUND = [0, 1, -1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, -128, -129, -127, 32767, 32768, 32769, 65535, 65536, 65537, -32768,
         -32769, 2147483647, -2147483648, 2147483646, -2147483647, 0x55555555, -0x55555556, 0x12345678, -2, -3, 1000, 12345, 0x1000000, 0x7fffff80, 0x00ff00ff]


def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


def f32(x):
    return s32(struct.unpack("<I", struct.pack("<f", x))[0])


def unf(w):
    return struct.unpack("<f", struct.pack("<I", w & 0xffffffff))[0]


class V:
    def __init__(self, id, t, kind, func=0):
        self.id, self.t, self.kind, self.func = id, t, kind, func
        self.ini = 0
        self.addressed = self.locked = False
        self.ro = False
        self.room = 0        # pointers: elements that may be accessed
        self.tgt = frozenset()
        self.file = 0
        self.static = False
        self.name = None
        self.tag = None

    @property
    def st(self):
        return self.kind in ("global", "slocal", "str")


class Eff:
    def __init__(self, r=(), w=(), log=False, all=False, cost=1):
        self.r, self.w, self.log, self.all, self.cost = frozenset(r), frozenset(w), log, all, cost

    def __or__(self, o):
        return Eff(self.r | o.r, self.w | o.w, self.log or o.log, self.all or o.all, self.cost + o.cost)

    @property
    def pure(self):
        return not (self.w or self.log or self.all)


class X:
    """an expression: node, type, effects; b: bit-field width or -1; c: constant"""
    def __init__(self, n, t, e, b=-1, c=False):
        self.n, self.t, self.e, self.b, self.c = n, t, e, b, c
        self.ro = False


class F:
    def __init__(self, id, name, ret, ptypes, va=False):
        self.id, self.name, self.ret, self.ptypes, self.va = id, name, ret, ptypes, va
        self.params, self.autos, self.body = [], [], 0
        self.eff = Eff()
        self.file = 0
        self.static = False
        self.knr = False
        self.depth = False       # first parameter bounds the recursion
        self.tgts = []           # types of pointer parameters' room
        self.done = False


class Prog:
    inconst = False
    def __init__(self, r, name, w=None, files=1):
        self.r, self.name = r, name
        self.w = dict(flt=0, agg=0, ptr=0, call=0, ctl=1, bits=0, str=0, assign=1, long=1, va=0, static=0)
        self.w.update(w or {})
        self.types = []
        for k, sz, sg in (("int", 1, True), ("int", 1, False), ("int", 2, True), ("int", 2, False), ("int", 4, True), ("int", 4, False), ("flt", 4, True),
                          ("void", 0, True), ("int", 1, True), ("int", 4, True), ("int", 4, False), ("flt", 4, True)):
            self.types.append(dict(k=k, sz=sz, sg=sg, to=0, n=0, f=[]))
        self.spell = {CHAR: ["char"], UCHAR: ["unsigned char", "char unsigned"], SHORT: ["short", "short int", "signed short", "int short"],
                      USHORT: ["unsigned short", "unsigned short int", "short unsigned"], INT: ["int", "int", "int", "signed", "signed int"],
                      UINT: ["unsigned", "unsigned int", "unsigned"], FLOAT: ["float"], VOID: ["void"], SCHAR: ["signed char"],
                      LONG: ["long", "long int", "signed long"], ULONG: ["unsigned long", "unsigned long int"], DOUBLE: ["double", "double", "long double"]}
        self.spell[DOUBLE] = ["double"]
        self.memo = {}
        self.fields = {}          # record type -> names
        self.tags = {}
        self.enums = {}           # type -> [(name, value)]
        self.consts = {}          # value -> enum constant names
        self.typedefs = {}        # type -> name
        self.vars, self.nodes, self.funcs = [], [], []
        self.files = files
        self.fn = None
        self.scope = []           # visible variables
        self.loops = 0
        self.labels = []
        self.args = []
        self.mult = 1
        self.budget = 0

    # ------------------------------------------------ building blocks
    def ty(self, **kw):
        key = repr(sorted(kw.items()))
        if key not in self.memo:
            d = dict(k="", sz=0, sg=True, to=0, n=0, f=[])
            d.update(kw)
            self.types.append(d)
            self.memo[key] = len(self.types)
        return self.memo[key]

    def T(self, t):
        return self.types[t - 1]

    def ptr(self, t):
        return self.ty(k="ptr", to=t)

    def array(self, t, n):
        return self.ty(k="arr", to=t, n=n)

    def fun(self, f):
        return self.ty(k="fun", to=f.ret, sig=[f.ret] + list(f.ptypes) + (["..."] if f.va else []))

    def isint(self, t):
        return self.T(t).k == "int" if False else self.types[t - 1]["k"] == "int"

    def kind(self, t):
        return self.types[t - 1]["k"]

    def N(self, k, **kw):
        d = dict(k=k, t=0, a=0, b=0, c=0, d=0, v=0, l=[], o="", fw=-1)
        d.update(kw)
        self.nodes.append(d)
        return len(self.nodes)

    def var(self, t, kind):
        v = V(len(self.vars) + 1, t, kind, self.fn.id if self.fn and kind != "global" else 0)
        self.vars.append(v)
        if kind in ("auto", "param"):
            self.fn.autos.append(v)
        if kind == "global":
            v.file = self.r.randrange(self.files)
        return v

    def nd(self, n):
        return self.nodes[n - 1]

    # ------------------------------------------------ typing
    def promoted(self, t, b=-1):
        if self.kind(t) == "flt":
            return FLOAT
        if self.kind(t) != "int":
            return t
        x = self.T(t)
        if b >= 0:
            return UINT if not x["sg"] and b == 32 else INT
        return UINT if x["sz"] == 4 and not x["sg"] else INT

    def pt(self, x):
        return self.promoted(x.t, x.b)

    def usual(self, x, y):
        a, b = self.pt(x), self.pt(y)
        return FLOAT if FLOAT in (a, b) else UINT if UINT in (a, b) else INT

    # ------------------------------------------------ effects
    def same(self, x, y):
        if x == y:
            return True
        tx, ty = isinstance(x, tuple), isinstance(y, tuple)
        if tx and ty:
            return True
        if tx or ty:
            return self.vars[(y if tx else x) - 1].st
        return False

    def hits(self, a, b):
        return any(self.same(x, y) for x in a for y in b)

    def clash(self, a, b):
        if a.all or b.all:
            f = lambda e: any(isinstance(x, tuple) or self.vars[x - 1].st or self.vars[x - 1].addressed for x in e.r | e.w) or e.log or e.all
            if f(a) and f(b):
                return True
        return (a.log and b.log) or self.hits(a.w, b.r) or self.hits(a.w, b.w) or self.hits(a.r, b.w)

    # ------------------------------------------------ integer constants
    def num(self, v=None, t=None):
        r = self.r
        if v is None:
            v = r.choice(BOUND) if r.random() < .4 else r.randrange(-9, 30) if r.random() < .7 else s32(r.getrandbits(32))
            if t is None and r.random() < .25:
                t = UINT
            if t is None and v == -2147483648:
                t = UINT
        t = t or INT
        if t == INT and v == -2147483648:
            return X(self.N("-", a=self.N("num", v=-2147483647, t=INT), b=self.N("num", v=1, t=INT)), INT, Eff(), c=True)
        return X(self.N("num", v=v, t=t), t, Eff(), c=True)

    def fnum(self, v=None):
        r = self.r
        if v is None:
            v = r.choice([0.0, 1.0, -1.0, 0.5, 2.0, 3.0, 10.0, 0.1, 0.2, 1.5, 2.5, 100.25, 16777216.0, 16777217.0, 1e10, 1e-10, 3.4e38, 1.2e-38, 1e-45, 2147483648.0, 65536.0, 255.0,
                          -0.75, 1e20, 1.0 / 3, 7.0, 12345.678, 4294967295.0, 0.99999994, 1.0000001, 8388608.5, -128.0])
            if r.random() < .2:
                v = r.uniform(-1000, 1000)
            if r.random() < .05:
                w = r.getrandbits(31)
                v = unf(w) if (w >> 23) != 255 else 1.25
        w = f32(v)
        if w < 0 or (w & 0x7f800000) == 0x7f800000:
            if (w & 0x7f800000) == 0x7f800000:
                w = f32(1.0)
            w &= 0x7fffffff
            return X(self.N("neg", a=self.N("num", v=w, t=FLOAT)), FLOAT, Eff(), c=True)
        return X(self.N("num", v=w, t=FLOAT), FLOAT, Eff(), c=True)

    # ------------------------------------------------ lvalues
    def has(self, t, want, d=0):
        """can a scalar of class want be reached in an object of type t"""
        x = self.T(t)
        k = x["k"]
        if k == want or t == want:
            return True
        if k == "arr":
            return self.has(x["to"], want, d)
        if k in ("rec", "uni"):
            return any(self.has(f["t"], want, d) and not f["anon"] and (f["w"] < 0 or k == want or isinstance(want, str)) for f in x["f"] if f["w"] != 0)
        return False

    def rd(self, v):
        return X(self.N("var", v=v.id), v.t, Eff([v.id]))

    def lval(self, want, write=False, depth=2, bits=True, cand=None):
        """lvalue X of class want ("int", "flt" or a type); .obj: the objects it may be in; None if there is none"""
        r = self.r
        vs = []
        for v in (cand or self.scope):
            if write and (v.locked or v.ro):
                continue
            if self.has(v.t, want):
                vs.append((v, False))
            elif self.kind(v.t) == "ptr" and v.room and self.has(self.T(v.t)["to"], want) and not (v.locked and cand is None and False):
                vs.append((v, True))
        if not vs:
            return None
        # the newest variables first
        v, via = vs[-1 - min(int(r.expovariate(.25)), len(vs) - 1)] if r.random() < .6 else r.choice(vs)
        e = Eff()
        if via:
            e = e | Eff([v.id])
            obj = v.tgt
            to = self.T(v.t)["to"]
            p = self.rd(v)
            t = to
            i = r.randrange(v.room)
            form = r.randrange(4)
            if self.kind(to) in ("rec", "uni") and form < 2 and i == 0:
                n = None
                pend = p
            else:
                pend = None
                if i == 0 and form == 0:
                    n = self.N("deref", a=p.n)
                elif form == 1:
                    n = self.N("deref", a=self.N("+", t=v.t, a=p.n, b=self.index(i, depth).n))
                elif form == 2 and r.random() < .1:
                    n = self.N("ix", a=self.index(i, depth).n, b=p.n)
                else:
                    n = self.N("ix", a=p.n, b=self.index(i, depth).n)
        else:
            obj = frozenset([v.id])
            n, t, pend = self.N("var", v=v.id), v.t, None
        b = -1
        while True:
            x = self.T(t)
            if pend is None and (x["k"] == want or t == want):
                break
            if x["k"] == "arr":
                ix, ie = self.anyindex(x["n"], depth, obj, write)
                e = e | ie
                f = r.random()
                if f < .8:
                    n = self.N("ix", a=n, b=ix)
                elif f < .85:
                    n = self.N("ix", a=ix, b=n)
                else:
                    n = self.N("deref", a=self.N("+", t=self.ptr(x["to"]), a=n, b=ix))
                t = x["to"]
            else:
                fs = [i for i, f in enumerate(x["f"]) if f["w"] != 0 and not f["anon"] and self.has(f["t"], want) and (f["w"] < 0 or (bits and isinstance(want, str)))]
                if not fs:
                    return None
                i = r.choice(fs)
                b = x["f"][i]["w"]
                if pend is not None:
                    n = self.N("arr", a=pend.n, v=i + 1, fw=b) if r.random() < .8 else self.N("fld", a=self.N("deref", a=pend.n), v=i + 1, fw=b)
                    pend = None
                elif r.random() < .06 and self.nd(n)["k"] != "call":
                    n = self.N("arr", a=self.N("addr", a=n, t=self.ptr(t)), v=i + 1, fw=b)
                else:
                    n = self.N("fld", a=n, v=i + 1, fw=b)
                t = x["f"][i]["t"]
        o = X(n, t, e, b)
        o.obj = obj
        return o

    def index(self, i, depth):
        return X(self.N("num", v=i, t=INT), INT, Eff())

    def anyindex(self, n, depth, obj, write):
        """an index below n; -> node, effects"""
        r = self.r
        if depth > 0 and r.random() < .35 and n > 1:
            vs = [v for v in self.scope if v.locked and v.room == -1 and getattr(v, "limit", 0) <= n and self.isint(v.t)]
            if vs and r.random() < .7:
                v = r.choice(vs)
                return self.N("var", v=v.id), Eff([v.id])
            m = 1
            while m * 2 <= n:
                m *= 2
            x = self.iexpr(min(depth - 1, 2), pure=True)
            if not self.hits(x.e.w, obj):
                return self.N("&", a=x.n, b=self.N("num", v=m - 1, t=INT)), x.e
        return self.N("num", v=r.randrange(n), t=INT), Eff()

    def read(self, lv):
        return X(lv.n, lv.t, lv.e | Eff(lv.obj), lv.b)

    # ------------------------------------------------ integer expressions
    def iexpr(self, d, pure=False, want=None):
        r = self.r
        for _ in range(6):
            x = self._iexpr(d, pure)
            if x is not None:
                return x
        return self.num()

    def settled(self, x):
        """whether the value of an assignment to a narrow unsigned bit-field promotes to int is not
        agreed upon: used as a value, it gets a cast"""
        if 0 <= x.b < 32 and not self.T(x.t)["sg"]:
            y = X(self.N("cast", a=x.n, t=UINT), UINT, x.e)
            y.raw = x
            return y
        return x

    def two(self, f, g):
        a = f()
        b = g()
        if self.clash(a.e, b.e):
            b = self.num() if self.kind(b.t) == "int" else self.fnum()
        return a, b

    def _iexpr(self, d, pure):
        r = self.r
        w = self.w
        if d <= 0 or r.random() < .12:
            f = r.random()
            if f < .28:
                return self.num()
            if f < .32:
                t = r.choice(INTS + [FLOAT] + [x + 1 for x in range(12, len(self.types)) if self.types[x]["k"] in ("ptr", "rec", "uni", "arr") and self.sized(x + 1)])
                if r.random() < .5:
                    return X(self.N("szt", v=t), UINT, Eff(), c=True)
                lv = self.lval(r.choice(["int", "flt"]), bits=False)
                if lv:
                    return X(self.N("sze", a=lv.n), UINT, Eff(), c=True)
                return None
            lv = self.lval("int", depth=min(d, 1))
            return self.read(lv) if lv else self.num()
        k = r.random()
        E = lambda: self.iexpr(d - 1 - (r.random() < .3), pure)
        if k < .10:
            a = E()
            return X(self.N(r.choice(["neg", "plus", "bnot", "bnot"]), a=a.n), self.pt(a), a.e, c=a.c)
        if k < .15:
            a = self.aexpr(d - 1, pure)
            return X(self.N("not", a=a.n), INT, a.e, c=a.c)
        if k < .25:
            a = E()
            t = r.choice(INTS + list(self.enums))
            return X(self.N("cast", a=a.n, t=t), t, a.e, c=a.c)
        if k < .28 and w["flt"] and not self.inconst:
            a = self.fexpr(d - 1, pure)
            t = r.choice(INTS)
            return X(self.N("cast", a=a.n, t=t), t, a.e, c=a.c)
        if k < .48:
            a, b = self.two(E, E)
            op = r.choice(["+", "-", "*", "&", "|", "^"])
            if r.random() < .3 and op in "+-*":   # no overflow
                a = X(self.N("cast", a=a.n, t=UINT), UINT, a.e, c=a.c)
            return X(self.N(op, a=a.n, b=b.n), self.usual(a, b), a.e | b.e, c=a.c and b.c)
        if k < .54:
            a, b = self.two(E, E)
            f = r.random()
            if f < .4 or self.inconst:
                b = self.num(r.choice([1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 255, 256, 1000, 32768, 65536, 2147483647] + ([-3] if self.inconst else [-1]) + [-2, -7, -8]))
            elif f < .5:
                b = self.num(r.choice([1, 2, 3, 8, 16, 4096, -2, -2147483648]), UINT)
            else:
                b = X(self.N("|", a=b.n, b=self.N("num", v=1, t=INT)), self.usual(b, X(0, INT, None)), b.e, c=b.c)
            return X(self.N(r.choice("/%"), a=a.n, b=b.n), self.usual(a, b), a.e | b.e, c=a.c and b.c)
        if k < .62:
            a, b = self.two(E, E)
            if r.random() < .5:
                b = self.num(r.choice([0, 1, 2, 3, 4, 8, 15, 16, 24, 30, 31]))
            else:
                b = X(self.N("&", a=b.n, b=self.N("num", v=31, t=INT)), self.usual(b, X(0, INT, None)), b.e, c=b.c)
            if r.random() < .5:
                a = X(self.N("cast", a=a.n, t=UINT), UINT, a.e, c=a.c)
            return X(self.N(r.choice(["<<", ">>", ">>"]), a=a.n, b=b.n), self.pt(a), a.e | b.e, c=a.c and b.c)
        if k < .72:
            if w["flt"] and r.random() < .3:
                a, b = self.two(lambda: self.aexpr(d - 1, pure), lambda: self.fexpr(d - 1, pure))
            elif w["ptr"] and r.random() < .15:
                x = self.pcompare(d, pure)
                if x:
                    return x
                a, b = self.two(E, E)
            else:
                a, b = self.two(E, E)
            return X(self.N(r.choice(["<", ">", "<=", ">=", "==", "!="]), a=a.n, b=b.n), INT, a.e | b.e, c=a.c and b.c)
        if k < .79:
            a, b = self.aexpr(d - 1, pure), self.aexpr(d - 1, pure)
            return X(self.N(r.choice(["&&", "||"]), a=a.n, b=b.n), INT, a.e | b.e, c=a.c and b.c)
        if k < .84:
            c, a, b = self.aexpr(d - 1, pure), E(), E()
            return X(self.N("?:", a=c.n, b=a.n, c=b.n), self.usual(a, b), c.e | a.e | b.e, c=a.c and b.c and c.c)
        if pure:
            return None
        if k < .87:
            a = self.sidex(d - 1)
            b = E()
            return self.settled(X(self.N(",", a=a.n, b=b.n), b.t, a.e | b.e, b.b))
        if k < .93 and w["assign"]:
            return self.assign("int", d)
        if w["call"]:
            return self.call(d, lambda t: self.kind(t) == "int")
        return None

    def sized(self, t):
        x = self.T(t)
        if x["k"] == "arr":
            return self.sized(x["to"]) and x["n"] > 0
        if x["k"] in ("rec", "uni"):
            return bool(x["f"])
        return x["k"] in ("int", "flt", "ptr")

    def aexpr(self, d, pure=False):
        if self.w["flt"] and self.r.random() < .3:
            return self.fexpr(d, pure)
        return self.iexpr(d, pure)

    def sidex(self, d):
        """some expression for its effect"""
        r = self.r
        if r.random() < .4:
            x = self.out(d)
            return x
        return self.assign("int", d) or self.iexpr(d)

    def out(self, d, x=None):
        x = x or self.aexpr(d)
        t = FLOAT if self.kind(x.t) == "flt" else UINT if self.promoted(x.t, x.b) == UINT else INT
        if self.r.random() < .04 and self.kind(x.t) == "int":
            t = self.r.choice([INT, UINT])
        return X(self.N("out", a=x.n, v=t), INT, Eff(x.e.r, x.e.w, True, x.e.all, x.e.cost + 1))

    def assign(self, cls, d, stmt=False):
        r = self.r
        lv = self.lval(cls, True, bits=stmt)
        if lv is None:
            return None
        W = Eff((), lv.obj)
        f = r.random()
        if f < .3 and (lv.b < 0 or self.T(lv.t)["sg"] or stmt):
            return self.settled(X(self.N(r.choice(["++p", "--p", "p++", "p--"]), a=lv.n), lv.t, lv.e | Eff(lv.obj) | W, lv.b))
        e = self.iexpr(d - 1) if cls == "int" and r.random() < .9 else self.aexpr(d - 1)
        if self.clash(lv.e, e.e) or self.hits(lv.obj, e.e.w) or (e.e.all and any(isinstance(o, tuple) or self.vars[o - 1].st or self.vars[o - 1].addressed for o in lv.obj)):
            e = self.num()
        if f < .65:
            return self.settled(X(self.N("=", a=lv.n, b=e.n), lv.t, lv.e | e.e | W, lv.b))
        flt = cls == "flt" or self.kind(e.t) == "flt"
        op = r.choice(["+", "-", "*"] + ([] if flt else ["&", "|", "^", "<<", ">>", "/", "%"]))
        n = e.n
        if op in ("<<", ">>"):
            n = self.N("num", v=r.choice([0, 1, 2, 3, 4, 8, 16]), t=INT) if r.random() < .5 else self.N("&", a=n, b=self.N("num", v=15, t=INT))
        elif op in ("/", "%"):
            n = self.N("|", a=n, b=self.N("num", v=1, t=INT)) if r.random() < .6 else self.num(r.choice([2, 3, 4, 7, 10, 16])).n
        return self.settled(X(self.N("op=", o=op, a=lv.n, b=n), lv.t, lv.e | Eff(lv.obj) | e.e | W, lv.b))

    # ------------------------------------------------ float expressions
    def fexpr(self, d, pure=False):
        for _ in range(4):
            x = self._fexpr(d, pure)
            if x is not None:
                return x
        return self.fnum()

    def _fexpr(self, d, pure):
        r = self.r
        if d <= 0 or r.random() < .15:
            if r.random() < .4:
                return self.fnum()
            lv = self.lval("flt")
            return self.read(lv) if lv else self.fnum()
        k = r.random()
        E = lambda: self.fexpr(d - 1, pure)
        if k < .08:
            a = E()
            return X(self.N(r.choice(["neg", "plus"]), a=a.n), FLOAT, a.e, c=a.c)
        if k < .2:
            a = self.iexpr(d - 1, pure)
            t = r.choice([FLOAT, DOUBLE])
            return X(self.N("cast", a=a.n, t=t), t, a.e, c=a.c)
        if k < .6:
            a, b = self.two(E, lambda: self.aexpr(d - 1, pure))
            if self.r.random() < .5:
                a, b = b, a
            if self.usual(a, b) != FLOAT:
                return None
            return X(self.N(r.choice("+-*/"), a=a.n, b=b.n), FLOAT, a.e | b.e, c=a.c and b.c)
        if k < .7:
            c, a, b = self.aexpr(d - 1, pure), E(), E()
            return X(self.N("?:", a=c.n, b=a.n, c=b.n), FLOAT, c.e | a.e | b.e, c=a.c and b.c and c.c)
        if pure:
            return None
        if k < .75:
            a, b = self.sidex(d - 1), E()
            return X(self.N(",", a=a.n, b=b.n), b.t, a.e | b.e)
        if k < .9:
            return self.assign("flt", d)
        if self.w["call"]:
            return self.call(d, lambda t: self.kind(t) == "flt")
        return None

    # ------------------------------------------------ pointers
    def addr(self, to, room=1, d=1, glob=False, ro=False):
        """pointer to room elements of type to: X with .obj"""
        r = self.r
        cs = []
        if to in (CHAR,) and ro and r.random() < .4:
            n = max(room - 1, 0) + r.randrange(5)
            v = self.strlit([r.choice([0, 10, 92, 34, 128, 255, 63]) if r.random() < .2 else r.randrange(32, 127) for _ in range(n)])
            x = X(self.N("str", v=v.id), v.t, Eff())
            x.obj = frozenset([v.id])
            x.ro = True
            return x
        for v in self.scope:
            if (v.ro and not ro) or v.locked or (v.kind == "param" and self.fn.knr) or (glob and not v.st):
                continue
            if self.has(v.t, to):
                cs.append(v)
            elif self.kind(v.t) == "ptr" and self.T(v.t)["to"] == to and v.room >= room:
                cs.append(v)
        r.shuffle(cs)
        pt = self.ptr(to)
        for v in cs:
            if self.kind(v.t) == "ptr" and self.T(v.t)["to"] == to:
                off = r.randrange(v.room - room + 1)
                n = self.N("var", v=v.id)
                if off:
                    n = self.N("+", t=pt, a=n, b=self.N("num", v=off, t=INT))
                x = X(n, pt, Eff([v.id]))
                x.obj = v.tgt
                x.ro = v.ro
                return x
            # find an array of room elements
            path = self.walk(v.t, to, room)
            if path is None:
                continue
            v.addressed = True
            n, t = self.N("var", v=v.id), v.t
            e = Eff()
            for st in path[:-1] if path and path[-1][0] == "elem" else path:
                if st[0] == "f":
                    n = self.N("fld", a=n, v=st[1] + 1)
                    t = self.T(t)["f"][st[1]]["t"]
                else:
                    n = self.N("ix", a=n, b=self.N("num", v=r.randrange(self.T(t)["n"]), t=INT))
                    t = self.T(t)["to"]
            if path and path[-1][0] == "elem":
                cnt = self.T(t)["n"]
                off = r.randrange(cnt - room + 1)
                f = r.random()
                if off == 0 and f < .4:
                    pass
                elif f < .7:
                    n = self.N("addr", a=self.N("ix", a=n, b=self.N("num", v=off, t=INT)), t=pt)
                else:
                    n = self.N("+", t=pt, a=n, b=self.N("num", v=off, t=INT))
                    if r.random() < .2:
                        n = self.N("-", t=pt, a=self.N("+", t=pt, a=self.nd(n)["a"], b=self.N("num", v=cnt, t=INT)), b=self.N("num", v=cnt - off, t=INT))
                if self.nd(n)["k"] in ("var", "fld", "ix"):
                    x = X(n, t, e)
                    x.decay = True
                    x.obj = frozenset([v.id])
                    return x
            else:
                n = self.N("addr", a=n, t=pt)
            x = X(n, pt, e)
            x.obj = frozenset([v.id])
            return x
        return None

    def strlit(self, bs):
        save, self.fn = self.fn, None
        v = self.var(self.array(CHAR, len(bs) + 1), "str")
        self.fn = save
        v.ini = self.N("sinit", l=list(bs) + [0], o="nul")
        return v

    def walk(self, t, to, room):
        """steps from an object of type t to room objects of type to"""
        r = self.r
        x = self.T(t)
        if t == to:
            return [] if room == 1 else None
        if x["k"] == "arr":
            if x["to"] == to and x["n"] >= room:
                return [("elem", 0)]
            p = self.walk(x["to"], to, room)
            return None if p is None else [("i", 0)] + p
        if x["k"] in ("rec", "uni"):
            fs = [i for i, f in enumerate(x["f"]) if f["w"] < 0 and not f["anon"]]
            r.shuffle(fs)
            for i in fs:
                p = self.walk(x["f"][i]["t"], to, room)
                if p is not None:
                    return [("f", i)] + p
        return None

    def pcompare(self, d, pure):
        r = self.r
        to = r.choice([INT, CHAR, UCHAR, UINT, FLOAT])
        a = self.addr(to, ro=True)
        b = self.addr(to)
        if a is None or b is None or self.clash(a.e, b.e):
            return None
        k = r.random()
        if k < .3:
            return X(self.N("==" if r.random() < .5 else "!=", a=a.n, b=self.N("num", v=0, t=INT)), INT, a.e)
        if k < .6:
            return X(self.N(r.choice(["==", "!="]), a=a.n, b=b.n), INT, a.e | b.e)
        return X(self.N(r.choice(["<", ">", "<=", ">=", "==", "!="]), a=a.n, b=b.n), INT, a.e | b.e)

    # ------------------------------------------------ calls
    def call(self, d, ok):
        r = self.r
        fs = [f for f in self.funcs if f is not self.fn and f.done and ok(f.ret) and f.eff.cost * self.mult < 3000 and f.id != 1]
        if not fs or d <= 0:
            return None
        f = r.choice(fs)
        return self.callto(f, d)

    def argument(self, pt_, room, d):
        k = self.kind(pt_)
        if k == "int":
            return self.iexpr(d - 1) if self.r.random() < .85 or not self.w["flt"] else self.fexpr(d - 1)
        if k == "flt":
            return self.aexpr(d - 1)
        if k == "ptr":
            return self.addr(self.T(pt_)["to"], max(room, 1))
        return self.sexpr(pt_, d - 1)

    def callto(self, f, d, first=None):
        r = self.r
        args, e = [], Eff()
        objs = {}
        for i, t in enumerate(f.ptypes):
            if f.knr and self.kind(t) == "int":
                a = self.iexpr(d - 1)
            else:
                a = first if i == 0 and first else self.num(r.randrange(0, 4)) if f.depth and i == 0 else self.argument(t, f.tgts[i] if i < len(f.tgts) else 1, d)
            if a is None:
                return None
            if self.clash(e, a.e):
                a = self.num() if self.kind(t) == "int" else self.fnum() if self.kind(t) == "flt" else None
                if a is None:
                    return None
            if self.kind(t) == "ptr":
                objs[("P", f.id, i)] = a.obj
            e = e | a.e
            args.append(a)
        if f.va:
            # the function expects its last named parameter to be the number of the others
            k = r.randrange(0, 6)
            args[-1] = self.num(k)
            for _ in range(k):
                a = self.iexpr(d - 1)
                if self.clash(e, a.e):
                    a = self.num()
                e = e | a.e
                args.append(a)
        m = lambda s: frozenset(y for x in s for y in (objs.get(x, [x]) if isinstance(x, tuple) else [x]))
        fe = Eff(m(f.eff.r), m(f.eff.w), f.eff.log, f.eff.all, f.eff.cost)
        fn = self.N("fun", v=f.id, t=self.fun(f))
        k = r.random()
        if k < .08:
            fn = self.N("deref", a=fn)
        elif k < .14:
            fn = self.N("addr", a=fn, t=self.ptr(self.fun(f)))
            if r.random() < .5:
                fn = self.N("deref", a=fn)
        elif k < .4:
            # through a variable that holds it
            ft = self.ptr(self.fun(f))
            vs = [v for v in self.scope if v.t == ft and getattr(v, "holds", None) is not None]
            if vs:
                v = r.choice(vs)
                g = self.funcs[v.holds - 1]
                same = (g.id == f.id or (g.tgts == f.tgts and not g.depth and not f.depth and not g.va))
                if same and all(self.funcs[h - 1].done and self.funcs[h - 1].tgts == f.tgts and not self.funcs[h - 1].depth for h in v.mayhold):
                    fn = self.N("var", v=v.id)
                    e2 = Eff([v.id])
                    for h in v.mayhold:
                        he = self.funcs[h - 1].eff
                        mm = lambda s, h=h: frozenset(y for x in s for y in (objs.get(("P", f.id, x[2]), [x]) if isinstance(x, tuple) else [x]))
                        fe = fe | Eff(mm(he.r), mm(he.w), he.log, he.all, he.cost)
                    if self.clash(e, e2):
                        return None
                    e = e | e2
                    if r.random() < .4:
                        fn = self.N("deref", a=fn)
        n = self.N("call", a=fn, l=[a.n for a in args])
        return X(n, f.ret, e | fe)

    # ------------------------------------------------ structures as values
    def sexpr(self, t, d, pure=False):
        r = self.r
        lv = self.lval(t)
        k = r.random()
        if lv is None:
            if not pure and self.w["call"]:
                return self.call(d, lambda x: x == t)
            return None
        a = self.read(lv)
        if k < .15 and d > 0:
            b = self.sexpr(t, d - 1, True)
            c = self.aexpr(d - 1, True)
            if b:
                return X(self.N("?:", t=t, a=c.n, b=a.n, c=b.n), t, a.e | b.e | c.e)
        if pure:
            return a
        if k < .25 and d > 0:
            b = self.lval(t, True)
            if b and not self.hits(b.obj, lv.obj):
                return X(self.N("=", a=b.n, b=a.n), t, a.e | b.e | Eff((), b.obj))
        if k < .45 and d > 0 and self.w["call"]:
            x = self.call(d, lambda y: y == t)
            if x:
                return x
        if k < .5 and d > 0:
            b = self.sidex(d - 1)
            return X(self.N(",", a=b.n, b=a.n), t, a.e | b.e)
        return a

    def sassign(self, d):
        """assignment of a whole structure"""
        r = self.r
        ts = [i + 1 for i, t in enumerate(self.types) if t["k"] in ("rec", "uni")]
        r.shuffle(ts)
        for t in ts:
            lv = self.lval(t, True)
            if lv is None:
                continue
            x = self.sexpr(t, d)
            if x is None or self.clash(lv.e, x.e) or self.hits(lv.obj, x.e.w | x.e.r) or x.e.all:
                # overlapping objects are only allowed when they are the same
                continue
            return X(self.N("=", a=lv.n, b=x.n), t, lv.e | x.e | Eff((), lv.obj))
        return None

    # ------------------------------------------------ types
    def scalar(self):
        r = self.r
        if self.w["flt"] and r.random() < .35:
            return r.choice([FLOAT, FLOAT, DOUBLE])
        if r.random() < .5:
            return INT if r.random() < .6 else UINT
        return r.choice(INTS + list(self.enums))

    def newenum(self):
        r = self.r
        self.types.append(dict(k="int", sz=4, sg=True, to=0, n=0, f=[], e=True))
        t = len(self.types)
        v, l = 0, []
        for i in range(r.randrange(1, 5)):
            ex = r.random() < .4
            if ex:
                v = r.choice([0, 1, 5, -3, 100, 32768, -32768, 2147483640, r.randrange(200)])
            l.append(("E%d_%d" % (t, i), v, ex))
            self.consts.setdefault(v, []).append((t, "E%d_%d" % (t, i)))
            v += 1
        self.enums[t] = l
        return t

    def newrecord(self, depth=1, noshort=False):
        r = self.r
        k = "rec" if r.random() < .8 else "uni"
        fs = []
        for i in range(r.choice([1, 2, 2, 3, 3, 4, 5, 7])):
            x = r.random()
            if x < .35 and self.w["bits"]:
                t = r.choice([INT, UINT, UINT])
                wd = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32])
                anon = r.random() < .1
                if r.random() < .06:
                    wd, anon = 0, True
                fs.append(dict(t=t, w=wd, anon=anon))
                continue
            if x < .6 or depth <= 0:
                t = self.scalar()
                if noshort and t in (SHORT, USHORT):
                    t = CHAR
            elif x < .85:
                t = self.scalar()
                if noshort and t in (SHORT, USHORT):
                    t = UCHAR
                t = self.array(t, r.choice([1, 2, 3, 4, 5, 8]))
                if r.random() < .15:
                    t = self.array(t, r.choice([1, 2, 3]))
            else:
                ts = [i + 1 for i, q in enumerate(self.types) if q["k"] in ("rec", "uni") and not (noshort and self.hasshort(i + 1))]
                t = r.choice(ts) if ts else self.scalar()
                if noshort and self.hasshort(t):
                    t = INT
                if r.random() < .3:
                    t = self.array(t, r.choice([1, 2, 3]))
            fs.append(dict(t=t, w=-1, anon=False))
        if not any(not f["anon"] for f in fs):
            fs.append(dict(t=INT, w=-1, anon=False))
        self.types.append(dict(k=k, sz=0, sg=True, to=0, n=0, f=fs))
        return len(self.types)

    def hasshort(self, t):
        x = self.T(t)
        return (x["k"] == "int" and x["sz"] == 2) or (x["k"] == "arr" and self.hasshort(x["to"])) or (x["k"] in ("rec", "uni") and any(self.hasshort(f["t"]) for f in x["f"]))

    def hasbits(self, t):
        x = self.T(t)
        return (x["k"] == "arr" and self.hasbits(x["to"])) or (x["k"] in ("rec", "uni") and any(f["w"] >= 0 or self.hasbits(f["t"]) for f in x["f"]))

    def objtype(self):
        r = self.r
        ts = [i + 1 for i, q in enumerate(self.types) if q["k"] in ("rec", "uni")]
        x = r.random()
        if self.w["agg"] and x < .35 and ts:
            t = r.choice(ts)
            return self.array(t, r.choice([1, 2, 3, 4])) if r.random() < .3 else t
        if (self.w["agg"] or self.w["ptr"]) and x < .6:
            t = self.array(self.scalar(), r.choice([1, 2, 3, 4, 5, 8]))
            return self.array(t, r.choice([2, 3])) if r.random() < .2 else t
        return self.scalar()

    # ------------------------------------------------ initialisers
    def cinit(self, t, depth=2, static=True):
        """constant initialiser of an object of type t; 0 if there is none"""
        r = self.r
        x = self.T(t)
        k = x["k"]
        if k == "int":
            return self.cscalar(t).n
        if k == "flt":
            return self.cscalar(t).n
        if k == "arr":
            if x["to"] in (CHAR, UCHAR, SCHAR) and r.random() < .6:
                n = r.randrange(0, x["n"] + 1)
                bs = [r.choice([0, 65, 97, 10, 34, 92, 7, 255, 128, 39, 63, 49, 37]) if r.random() < .3 else r.randrange(32, 127) for _ in range(n)]
                if n < x["n"]:
                    bs.append(0)
                s = self.N("sinit", l=bs, o="nul" if n < x["n"] else "")
                return self.N("ilist", l=[s]) if r.random() < .2 else s
            cnt = x["n"] if r.random() < .6 else r.randrange(1, x["n"] + 1)
            return self.N("ilist", l=self.elems([x["to"]] * cnt, depth))
        if k in ("rec", "uni"):
            fs = [f for f in x["f"] if not f["anon"]]
            if k == "uni":
                fs = fs[:1] if not x["f"][0]["anon"] else []
                if not fs:
                    return 0
            cnt = len(fs) if r.random() < .6 else r.randrange(1, len(fs) + 1)
            out = []
            for f in fs[:cnt]:
                if f["w"] >= 0:
                    v = self.num(s32(r.getrandbits(f["w"])) if r.random() < .5 else r.randrange(2))
                    out.append(self.num(self.bitval(f)).n)
                else:
                    out += self.elems([f["t"]], depth)
            return self.N("ilist", l=out)
        return 0

    def bitval(self, f):
        w = f["w"]
        v = self.r.getrandbits(w)
        if self.T(f["t"])["sg"]:
            return v - (1 << w) if v >> (w - 1) else v
        return v if w < 32 else v & 0x7fffffff

    def cscalar(self, t):
        r = self.r
        if self.kind(t) == "flt":
            return self.fnum() if r.random() < .7 else self.num(r.randrange(-1000, 1000))
        if r.random() < .3:
            save, self.scope = self.scope, []
            self.inconst = True     # undefined constants (a float out of range, INT_MIN / -1) may be refused
            x = self.iexpr(2, True)
            self.inconst = False
            self.scope = save
            x = X(self.N("cast", a=x.n, t=t), t, x.e, c=True)
            return x
        return self.num()

    def elems(self, ts, depth):
        out = []
        for t in ts:
            k = self.kind(t)
            if k in ("arr", "rec", "uni"):
                if self.r.random() < .25 and not self.hasbits(t) and self.full(t):
                    out += self.flat(t)     # braces left out
                else:
                    n = self.cinit(t, depth - 1)
                    out.append(n if n else self.N("ilist", l=[self.num(1).n]))
            else:
                out.append(self.cscalar(t).n)
        return out

    def full(self, t):
        return self.kind(t) != "uni" and not any(self.kind(f["t"]) == "uni" for f in self.T(t)["f"])

    def flat(self, t):
        x = self.T(t)
        if x["k"] == "arr":
            return [n for _ in range(x["n"]) for n in self.flat(x["to"])]
        if x["k"] == "rec":
            return [n for f in x["f"] if not f["anon"] for n in self.flat(f["t"])]
        if x["k"] == "uni":
            return self.flat(x["f"][0]["t"])
        return [self.cscalar(t).n]

    # ------------------------------------------------ statements
    def note(self, e):
        self.fe = self.fe | Eff(e.r, e.w, e.log, e.all, e.cost * self.mult)

    def S(self, k, **kw):
        return self.N(k, **kw)

    def expr_stmt(self, x):
        self.note(x.e)
        x = getattr(x, "raw", x)
        return self.N("expr", a=x.n)

    def block(self, stmts, decls=()):
        return self.N("blk", l=list(decls) + list(stmts))

    def locals_(self, n):
        """declarations of new automatic variables, in scope from here"""
        r = self.r
        out = []
        for _ in range(n):
            if self.w["static"] and r.random() < .15:
                t = self.objtype()
                v = self.var(t, "slocal")
                if not self.hasshort(t) and r.random() < .7:
                    v.ini = self.cinit(t)
                v.file = self.fn.file
                self.scope.append(v)
                out.append(self.N("decl", v=v.id, o="static"))
                continue
            if self.w["ptr"] and r.random() < .3:
                x = self.newptr()
                if x:
                    out.append(x)
                    continue
            if self.w["call"] and r.random() < .2:
                x = self.newfptr()
                if x:
                    out.append(x)
                    continue
            t = self.objtype()
            k = self.kind(t)
            if k in ("int", "flt"):
                x = self.aexpr(r.choice([0, 1, 2])) if k == "int" and r.random() < .2 else self.iexpr(r.choice([0, 1, 2])) if k == "int" else self.aexpr(1)
                v = self.var(t, "auto")
                self.note(x.e)
                out.append(self.N("decl", v=v.id, a=x.n))
            else:
                if k in ("rec", "uni") and r.random() < .3:
                    x = self.sexpr(t, 1)
                    if x:
                        v = self.var(t, "auto")
                        self.note(x.e)
                        out.append(self.N("decl", v=v.id, a=x.n))
                        self.scope.append(v)
                        continue
                if self.hasshort(t):
                    v = self.var(t, "slocal")
                    v.file = self.fn.file
                    out.append(self.N("decl", v=v.id, o="static"))
                else:
                    v = self.var(t, "auto")
                    out.append(self.N("decl", v=v.id, a=self.cinit(t, static=False)))
            self.scope.append(v)
        return out

    def newptr(self):
        r = self.r
        to = r.choice([INT, CHAR, UCHAR, UINT, SHORT, USHORT] + ([FLOAT] if self.w["flt"] else []) + [i + 1 for i, q in enumerate(self.types) if q["k"] in ("rec", "uni")] * 2)
        room = r.choice([1, 1, 2, 3])
        x = self.addr(to, room, ro=True)
        if x is None:
            x, room = self.addr(to, 1), 1
        if x is None:
            return None
        v = self.var(self.ptr(to), "auto")
        v.room, v.tgt, v.ro = room, x.obj, x.ro
        self.note(x.e)
        self.scope.append(v)
        return self.N("decl", v=v.id, a=x.n)

    def newfptr(self):
        r = self.r
        fs = [f for f in self.funcs if f.done and f is not self.fn and not f.va and f.id != 1 and not f.knr]
        if not fs:
            return None
        f = r.choice(fs)
        v = self.var(self.ptr(self.fun(f)), "auto")
        v.holds = f.id
        alts = [g for g in fs if self.fun(g) == self.fun(f) and g.tgts == f.tgts and g.depth == f.depth]
        v.mayhold = {f.id}
        fn = self.N("fun", v=f.id, t=self.fun(f))
        n = fn if r.random() < .6 else self.N("addr", a=fn, t=v.t)
        if len(alts) > 1 and r.random() < .6:
            g = r.choice(alts)
            v.mayhold.add(g.id)
            c = self.iexpr(1, True)
            n = self.N("?:", t=v.t, a=c.n, b=fn, c=self.N("fun", v=g.id, t=self.fun(g)))
            self.note(c.e)
        self.scope.append(v)
        return self.N("decl", v=v.id, a=n)

    def stmts(self, n, d):
        return [s for _ in range(n) for s in [self.stmt(d)] if s]

    def body(self, d, n=None):
        """a statement used as a body"""
        r = self.r
        if r.random() < .25:
            return self.stmt(d) or self.N("nop")
        depth = len(self.scope)
        dc = self.locals_(r.choice([0, 0, 0, 1, 1, 2])) if not getattr(self, "nodecl", 0) else []
        ss = self.stmts(n or r.choice([1, 2, 2, 3]), d)
        if self.loopdepth and r.random() < .25:
            ss.append(self.brk())
            if r.random() < .6:
                ss += self.stmts(1, 0)
        b = self.block(ss, dc)
        self.hide(depth)
        return b

    def hide(self, depth):
        self.scope = self.scope[:depth]

    def ref(self, v):
        return self.N("var", v=v.id)

    def counter(self):
        """a variable for a loop: declared at the start of the function"""
        vs = [v for v in self.counters if not v.locked and not v.addressed]
        if not vs:
            return None
        v = self.r.choice(vs)
        v.locked = True
        v.room = -1
        return v

    def free(self, v):
        v.locked = False
        v.room = 0

    def stmt(self, d):
        r = self.r
        w = self.w
        k = r.random() * (1 if d > 0 and w["ctl"] else .62)
        if self.mult > 400 and k >= .7:
            k = .5
        if k < .04:
            x = self.chain()
            if x:
                return x
        if k < .22:
            return self.expr_stmt(self.out(2))
        if k < .45:
            x = None
            if w["agg"] and r.random() < .25:
                x = self.sassign(2)
            x = x or self.assign("flt" if w["flt"] and r.random() < .4 else "int", 3, True)
            return self.expr_stmt(x) if x else None
        if k < .5:
            if w["ptr"] and r.random() < .6:
                x = self.passign()
                if x:
                    return x
            return self.expr_stmt(self.iexpr(3))
        if k < .58 and w["call"]:
            x = self.call(3, lambda t: True)
            if x:
                if r.random() < .3:
                    x = X(self.N("cast", t=VOID, a=x.n), VOID, x.e)
                elif self.kind(x.t) in ("int", "flt") and r.random() < .7:
                    x = self.out(0, x)
                elif self.kind(x.t) in ("rec", "uni") and r.random() < .8:
                    y = self.fieldof(x)
                    if y:
                        x = self.out(0, y)
                return self.expr_stmt(x)
        if k < .6:
            return self.N("nop")
        if k < .62:
            if self.loopdepth and r.random() < .6:
                return self.brk()
            if self.exits and r.random() < .5:
                g = self.N("goto", v=-r.choice(self.exits))
                c = self.aexpr(2)
                self.note(c.e)
                return self.N("if", a=c.n, b=g)
            return self.expr_stmt(self.out(2))
        if k < .74:
            c = self.aexpr(3)
            self.note(c.e)
            a = self.body(d - 1)
            b = self.body(d - 1) if r.random() < .6 else 0
            return self.N("if", a=c.n, b=a, c=b)
        if k < .88:
            return self.loop(d)
        if k < .95:
            return self.switch(d)
        if k < .98:
            # a label at the end that can be left for
            lab = len(self.nodes) + 1
            L = self.N("label", a=0)
            self.exits.append(L)
            b = self.body(d - 1)
            self.exits.remove(L)
            self.nd(L)["a"] = self.stmt(0) or self.N("nop")
            # children before parents: the label is re-created
            L2 = self.N("label", a=self.nd(L)["a"])
            for x in self.nodes:
                if x["k"] == "goto" and x["v"] == -L:
                    x["v"] = -L2
            return self.block([b, L2])
        return self.expr_stmt(self.out(2))

    def scalars(self, ids, avoid, want):
        """writable scalar variables of class want, for use in a chain"""
        return [v for v in self.scope if self.kind(v.t) == want and not v.locked and not v.ro and v.id not in avoid and v.kind == "auto"]

    def chain(self):
        """expressions joined by commas: an object is read, changed and read again"""
        r = self.r
        xs = []
        for _ in range(r.choice([1, 1, 2])):
            cls = "flt" if self.w["flt"] and r.random() < .3 else "int"
            lv = self.lval(cls)
            if lv is None:
                continue
            path = set(lv.e.r)
            rd = lambda: self.read(lv)
            objs = [self.vars[o - 1] for o in lv.obj if not isinstance(o, tuple)]
            ws = [v for v in objs if v.id not in path and not v.locked and not v.ro and v in self.scope]
            ds = self.scalars((), path | {o for o in lv.obj if not isinstance(o, tuple)}, cls)

            def show():
                if ds and r.random() < .6:
                    d = r.choice(ds)
                    return X(self.N("=", a=self.ref(d), b=lv.n), d.t, lv.e | Eff(lv.obj) | Eff((), [d.id]))
                return self.out(0, rd())
            xs.append(show())
            w = self.lval("int" if r.random() < .8 else cls, True, cand=ws) if ws and r.random() < .8 else self.lval(cls, True)
            if w is not None and not (self.hits(w.obj, frozenset(path))):
                e = self.num() if self.kind(w.t) == "int" else self.fnum()
                k = self.N("=", a=w.n, b=e.n) if r.random() < .6 else self.N(r.choice(["++p", "p--", "p++"]), a=w.n)
                xs.append(X(k, w.t, w.e | Eff(w.obj, w.obj)))
            elif r.random() < .5:
                xs.append(self.out(1))
            xs.append(show())
            if ds and r.random() < .5:
                xs.append(self.out(0, X(self.ref(ds[0]), ds[0].t, Eff([ds[0].id]))))
        if not xs:
            return None
        x = xs[0]
        for y in xs[1:]:
            x = X(self.N(",", a=x.n, b=y.n), y.t, x.e | y.e)
        return self.expr_stmt(x)

    def fieldof(self, x):
        """a scalar member of a structure value"""
        r = self.r
        t, n = x.t, x.n
        b = -1
        while True:
            q = self.T(t)
            if q["k"] in ("int", "flt"):
                return X(n, t, x.e, b)
            if q["k"] not in ("rec", "uni"):
                return None
            fs = [i for i, f in enumerate(q["f"]) if not f["anon"] and f["w"] != 0 and self.kind(f["t"]) in ("int", "flt", "rec")]
            if not fs:
                return None
            i = r.choice(fs)
            b = q["f"][i]["w"]
            n = self.N("fld", a=n, v=i + 1, fw=b)
            t = q["f"][i]["t"]

    def passign(self):
        r = self.r
        vs = [v for v in self.scope if self.kind(v.t) == "ptr" and v.room > 0 and not v.locked and v.kind == "auto"]
        if not vs:
            return None
        v = r.choice(vs)
        x = self.addr(self.T(v.t)["to"], v.room, ro=v.ro)
        if x is None or not x.obj <= v.tgt:
            return None
        return self.expr_stmt(X(self.N("=", a=self.ref(v), b=x.n), v.t, x.e | Eff((), [v.id])))

    def brk(self):
        r = self.r
        c = self.aexpr(2)
        self.note(c.e)
        s = self.N("brk") if r.random() < .5 or not self.contok else self.N("cont")
        return self.N("if", a=c.n, b=s)

    def loop(self, d):
        r = self.r
        v = self.counter()
        if v is None or self.mult > 300:
            if v:
                self.free(v)
            return self.expr_stmt(self.out(2))
        n = r.choice([0, 1, 2, 3, 3, 4, 5])
        v.limit = n
        self.mult *= max(n, 1)
        self.loopdepth += 1
        save, self.contok = self.contok, True
        num = lambda k: self.N("num", v=k, t=INT)
        R = lambda: self.ref(v)
        k = r.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 8])
        self.note(Eff([v.id], [v.id], cost=4))
        if k <= 2:
            up = r.random() < .6
            b = self.body(d - 1)
            if up:
                i, t = self.N("=", a=R(), b=num(0)), self.N(r.choice(["<", "!="]), a=R(), b=num(n))
                c = r.choice([self.N("++p", a=R()), self.N("p++", a=R()), self.N("op=", o="+", a=R(), b=num(1))])
            else:
                i, t = self.N("=", a=R(), b=num(n - 1)), self.N(">=", a=R(), b=num(0))
                if not self.T(v.t)["sg"]:
                    t = self.N("<", a=R(), b=num(n))
                    if n and self.T(v.t)["sz"] != 4:
                        t = self.N("<", a=R(), b=num(n))
                c = r.choice([self.N("--p", a=R()), self.N("p--", a=R()), self.N("op=", o="-", a=R(), b=num(1))])
            if r.random() < .15:
                # the condition is inside
                b = self.block([self.N("if", a=self.N("not", a=t), b=self.N("brk")), b])
                t = 0
            s = self.N("for", a=i, b=t, c=c, d=b)
        elif k <= 4:
            v.limit = n + 1
            b = self.body(d - 1)
            if r.random() < .5:
                s = self.block([self.N("expr", a=self.N("=", a=R(), b=num(n))), self.N("while", a=self.N(">", a=self.N("p--", a=R()), b=num(0)) if r.random() < .5
                               else self.N("p--", a=R()), b=b)])
                if not self.T(v.t)["sg"] :
                    v.limit = 1 << 30
            else:
                s = self.block([self.N("expr", a=self.N("=", a=R(), b=num(0))), self.N("while", a=self.N("<", a=self.N("p++", a=R()), b=num(n)), b=b)])
        elif k == 6:
            # counted at the start of the body
            v.limit = n + 1
            b = self.body(d - 1)
            inc = self.N("expr", a=r.choice([self.N("++p", a=R()), self.N("p++", a=R()), self.N("op=", o="+", a=R(), b=num(1))]))
            f = r.random()
            init = self.N("=", a=R(), b=num(0))
            pre = []
            more = [self.brk()] + self.stmts(1, 0) if r.random() < .5 else []
            b = self.block([b] + more) if more else b
            if f < .2:
                pre, init = [self.N("expr", a=init)], 0
            t = self.N("<", a=R(), b=num(n))
            if f < .6:
                s = self.N("for", a=init, b=t, c=0, d=self.block([inc, b]))
            elif f < .8:
                s = self.N("for", a=init, b=0, c=0, d=self.block([self.N("if", a=self.N(">=", a=self.N("p++", a=R()), b=num(n)), b=self.N("brk")), b]))
            else:
                s = self.block([self.N("expr", a=init or self.N("=", a=R(), b=num(0))), self.N("while", a=self.N("num", v=r.choice([1, 1, -1, 256]), t=INT),
                                b=self.block([self.N("if", a=self.N(">=", a=self.N("p++", a=R()), b=num(n)), b=self.N("brk")), b]))])
            if pre:
                s = self.block(pre + [s])
        elif k == 5 or k == 8:
            b = self.body(d - 1)
            s = self.block([self.N("expr", a=self.N("=", a=R(), b=num(0))), self.N("do", a=self.N("<", a=self.N("++p", a=R()), b=num(n)), b=b)])
        else:
            self.contok = save
            self.loopdepth -= 1
            b = self.body(d - 1)
            self.loopdepth += 1
            L = self.N("label", a=b)
            s = self.block([self.N("expr", a=self.N("=", a=R(), b=num(0))), L,
                            self.N("if", a=self.N("<", a=self.N("++p", a=R()), b=num(n)), b=self.N("goto", v=-L))])
        self.contok = save
        self.loopdepth -= 1
        self.mult //= max(n, 1)
        self.free(v)
        return s

    def casevals(self, k):
        r = self.r
        f = r.randrange(5)
        base = r.choice([0, 0, 1, -3, 10, 100, 250, -130, 32760, 2147483630, -2147483648, -2147483640])
        if f == 0:
            vs = [base + i for i in range(k)]
        elif f == 1:
            vs = [base + i * r.choice([1, 2, 3]) for i in range(k)]
        elif f == 2:
            vs = [r.choice(BOUND) for _ in range(k)]
        elif f == 3:
            vs = [base + i for i in range(k // 2)] + [base + 1000 + i * 5 for i in range(k - k // 2)]
        else:
            vs = [r.randrange(-20, 40) for _ in range(k)]
        vs = list(dict.fromkeys(s32(v) for v in vs))
        r.shuffle(vs)
        return vs

    def switch(self, d, k=None, ctl=None):
        r = self.r
        vs = self.casevals(k or r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20]))
        x = ctl or self.iexpr(2)
        if ctl is None and vs and r.random() < .7:
            # near the cases
            b = self.iexpr(1)
            x = X(self.N("+", a=self.N("&", a=b.n, b=self.N("num", v=r.choice([3, 7, 15]), t=INT)), b=self.N("num", v=min(vs) if min(vs) > -2147483648 else -2147483647, t=INT)), INT, b.e) \
                if self.pt(b) == INT else x
        self.note(x.e)
        uns = self.pt(x) == UINT
        self.loopdepth += 1
        save, self.contok = self.contok, self.contok and self.loopdepth > 1
        self.nodecl = getattr(self, "nodecl", 0)
        items = []
        dpos = r.randrange(len(vs) + 1) if r.random() < .7 else -1
        for i in range(len(vs) + 1):
            if i == dpos:
                items.append(self.N("default", a=self.expr_stmt(self.out(1, self.num()))))
                items += self.stmts(r.choice([0, 1]), d - 2)
                if r.random() < .5:
                    items.append(self.N("brk"))
            if i < len(vs):
                inner = self.expr_stmt(self.out(1)) if r.random() < .8 else self.stmt(d - 2) or self.N("nop")
                if r.random() < .1:
                    inner = self.block([inner])
                items.append(self.N("case", v=vs[i], t=UINT if uns else INT, a=inner))
                if r.random() < .3:
                    items += self.stmts(1, d - 2)
                if r.random() < .6:
                    items.append(self.N("brk"))
        self.contok = save
        self.loopdepth -= 1
        b = self.block(items)
        if len(items) == 1 and r.random() < .5:
            b = items[0]
        return self.N("switch", a=x.n, b=b)

    # ------------------------------------------------ functions
    def function(self, f, nstmt=4, d=2, main=False):
        r = self.r
        self.fn = f
        self.fe = Eff()
        self.scope = [v for v in self.vars if v.kind == "global" and (self.files == 1 or not v.static or v.file == f.file)]
        base = list(self.scope)
        self.loopdepth = 0
        self.contok = False
        self.exits = []
        self.mult = 1
        for i, t in enumerate(f.ptypes):
            v = self.var(t, "param")
            f.params.append(v)
            if self.kind(t) == "ptr":
                v.room, v.tgt = f.tgts[i], frozenset([("P", f.id, i)])
            if f.depth and i == 0:
                v.locked = True
            self.scope.append(v)
        decls = []
        self.counters = []
        for _ in range(3):
            v = self.var(r.choice([INT, INT, INT, UINT, CHAR, SHORT, UCHAR, LONG]), "auto")
            self.counters.append(v)
            decls.append(self.N("decl", v=v.id, a=self.num(r.randrange(5)).n))
            self.scope.append(v)
        decls += self.locals_(r.choice([1, 2, 3, 4]))
        ss = []
        if f.va:
            ss += self.vabody(f)
        if f.depth:
            ss.append(self.N("if", a=self.N("<=", a=self.ref(f.params[0]), b=self.N("num", v=0, t=INT)), b=self.retstmt(f)))
        for v in f.params:
            if self.kind(v.t) in ("rec", "uni") and r.random() < .6:
                lv = self.lval(r.choice(["int", "int", "flt"]), True, cand=[v])
                if lv:
                    e = self.num() if self.kind(lv.t) == "int" else self.fnum()
                    ss.append(self.expr_stmt(X(self.N("=", a=lv.n, b=e.n), lv.t, lv.e | Eff((), lv.obj))))
        ss += self.stmts(nstmt, d)
        if f.depth:
            for _ in range(r.choice([1, 1, 2])):
                g = r.choice([h for h in self.funcs if h.depth and (h.ret == f.ret or h is f) and (h is f or not h.done or h.id < f.id)] or [f])
                x = self.recurse(f, g)
                if x:
                    ss.append(x)
                ss += self.stmts(1, 1)
        for v in self.scope:
            if v.kind in ("auto", "param") and v.func == f.id and self.kind(v.t) in ("rec", "uni", "arr") and r.random() < .6:
                for _ in range(r.choice([1, 1, 2, 3])):
                    lv = self.lval(r.choice(["int", "int", "flt"]), cand=[v])
                    if lv:
                        ss.append(self.expr_stmt(self.out(0, self.read(lv))))
        ss.append(self.retstmt(f))
        f.body = self.block(ss, decls)
        keep = lambda s: frozenset(x for x in s if isinstance(x, tuple) or self.vars[x - 1].st)
        f.eff = Eff(keep(self.fe.r), keep(self.fe.w), self.fe.log, self.fe.all or f.depth, min(self.fe.cost, 10 ** 6) * (8 if f.depth else 1))
        f.done = True
        self.fn = None

    def recurse(self, f, g):
        r = self.r
        first = X(self.N("-", a=self.ref(f.params[0]), b=self.N("num", v=1, t=INT)), INT, Eff([f.params[0].id]))
        save = g.done
        x = self.callto(g, 2, first)
        if x is None:
            return None
        x.e = Eff(x.e.r, x.e.w, True, True, x.e.cost)
        if self.kind(f.ret) in ("int", "flt"):
            lv = self.lval("int" if self.kind(f.ret) == "int" else "flt", True, cand=[v for v in self.scope if v.kind == "auto" and not v.addressed])
            if lv and r.random() < .7:
                op = self.N("=", a=lv.n, b=x.n) if r.random() < .5 else self.N("op=", o=r.choice(["+", "-", "*"]), a=lv.n, b=x.n)
                return self.expr_stmt(X(op, lv.t, x.e | Eff((), lv.obj)))
            if r.random() < .5:
                return self.expr_stmt(X(self.N("out", a=x.n, v=FLOAT if self.kind(x.t) == "flt" else INT), INT, x.e))
        return self.expr_stmt(x)

    def retstmt(self, f):
        if f.ret == VOID:
            return self.N("ret")
        k = self.kind(f.ret)
        if k == "int":
            x = self.aexpr(2)
        elif k == "flt":
            x = self.aexpr(2)
        elif k == "ptr":
            x = self.addr(self.T(f.ret)["to"], 1, glob=True)
        else:
            x = self.sexpr(f.ret, 1)
        assert x, "no value to return"
        self.note(x.e)
        return self.N("ret", a=x.n)

    def vabody(self, f):
        """sum and log the unnamed arguments"""
        r = self.r
        last = f.params[-1]
        last.locked = True
        last.addressed = True
        i = self.counters[0]
        i.locked = True
        p = self.var(self.ptr(INT), "auto")
        R = self.ref
        num = lambda k: self.N("num", v=k, t=INT)
        d = self.N("decl", v=p.id, a=self.N("addr", a=R(last), t=p.t))
        if r.random() < .5:
            step = self.N("out", a=self.N("deref", a=self.N("++p", a=R(p))), v=INT)
        else:
            step = self.N("out", a=self.N("ix", a=R(p), b=self.N("+", a=R(i), b=num(1))), v=INT)
        lp = self.N("for", a=self.N("=", a=R(i), b=num(0)), b=self.N("<", a=R(i), b=R(last)), c=self.N("p++", a=R(i)), d=self.N("expr", a=step))
        self.note(Eff([p.id, i.id, last.id], [p.id, i.id], True, cost=60))
        b = self.block([lp], [d])
        i.locked = False
        return [b]

    def newfun(self, name, ret, ptypes, **kw):
        f = F(len(self.funcs) + 1, name, ret, ptypes)
        for k, v in kw.items():
            setattr(f, k, v)
        self.funcs.append(f)
        f.file = self.r.randrange(self.files)
        if not f.tgts:
            f.tgts = [self.r.choice([1, 1, 2]) if self.kind(t) == "ptr" else 0 for t in ptypes]
        return f

    def dump(self):
        """statements that show the contents of all global objects"""
        r = self.r
        out = []
        i = self.counters[0]
        R = self.ref
        num = lambda k: self.N("num", v=k, t=INT)
        for v in [x for x in self.scope if x.kind == "global"]:
            k = self.kind(v.t)
            if k in ("int", "flt"):
                out.append(self.N("expr", a=self.out(0, self.rd(v)).n))
            elif k in ("rec", "uni", "arr"):
                el = v.t
                while self.kind(el) == "arr":
                    el = self.T(el)["to"]
                word = self.kind(el) in ("rec", "uni") or (self.kind(el) in ("int", "flt") and self.T(el)["sz"] == 4)
                if self.kind(el) == "ptr":
                    continue
                if word:
                    pt = self.ptr(INT)
                    lim = self.N("/", a=self.N("sze", a=R(v)), b=num(4))
                    t = INT
                else:
                    t = UCHAR
                    pt = self.ptr(UCHAR)
                    lim = self.N("sze", a=R(v))
                src = R(v) if k == "arr" else self.N("addr", a=R(v), t=self.ptr(v.t))
                rd = self.N("ix", a=self.N("cast", t=pt, a=src), b=R(i))
                out.append(self.N("for", a=self.N("=", a=R(i), b=num(0)), b=self.N("<", a=R(i), b=lim), c=self.N("p++", a=R(i)),
                                  d=self.N("expr", a=self.N("out", a=rd, v=INT))))
        return out

    # ------------------------------------------------ result
    def finish(self):
        """drop unused nodes; children before parents"""
        keep = set()
        st = [f.body for f in self.funcs if f.body] + [v.ini for v in self.vars if v.ini]
        while st:
            n = st.pop()
            if n in keep or n == 0:
                continue
            keep.add(n)
            x = self.nd(n)
            st += [x["a"], x["b"], x["c"], x["d"]] + (x["l"] if x["k"] != "sinit" else [])
            if x["k"] == "goto":
                assert x["v"] < 0
        order, new = [], {}

        def visit(n):
            stack = [(n, False)]
            while stack:
                m, done = stack.pop()
                if m in new or m == 0:
                    continue
                if done:
                    order.append(m)
                    new[m] = len(order)
                    continue
                stack.append((m, True))
                x = self.nd(m)
                for c in reversed([x["a"], x["b"], x["c"], x["d"]] + (x["l"] if x["k"] != "sinit" else [])):
                    stack.append((c, False))
        for n in sorted(keep):
            visit(n)
        g = lambda n: new.get(n, 0)
        out = []
        for m in order:
            x = dict(self.nd(m))
            for k in "abcd":
                x[k] = g(x[k])
            if x["k"] != "sinit":
                x["l"] = [g(n) for n in x["l"]]
            if x["k"] == "goto":
                x["v"] = g(-x["v"])
            out.append(x)
        self.nodes = out
        for f in self.funcs:
            f.body = g(f.body)
        for v in self.vars:
            v.ini = g(v.ini)

    def case(self):
        return dict(name=self.name, args=self.args, types=[dict(k=t["k"], sz=t["sz"], sg=t["sg"], to=t["to"], n=t["n"], f=t["f"]) for t in self.types],
                    vars=[dict(t=v.t, st=v.st, ini=v.ini) for v in self.vars],
                    funcs=[dict(name=f.name, ret=f.ret, params=[v.id for v in f.params], autos=[v.id for v in f.autos], body=f.body, va=f.va) for f in self.funcs],
                    nodes=self.nodes)
