"""Random translation units, valid and not, as token sequences with lines.

The generator aims at valid units and then disturbs most of them; it does not
know which of its units are valid: the specification decides that."""
import random

TYPES = ["int", "int", "int", "unsigned", "char", "short", "double", "float", "unsigned char", "long", "unsigned short", "signed char", "unsigned long", "long double"]
ARITH = set(TYPES)
INTS = ARITH - {"double", "float", "long double"}
KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if int long register return short
signed sizeof static struct switch typedef union unsigned void volatile while""".split())
PUNCT = ["{", "}", "(", ")", "[", "]", ";", ",", ":", "?", "=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "<", ">", "<=", ">=", "==", "!=",
         "&&", "||", "<<", ">>", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", ".", "->", "..."]


def ptr(t): return ("ptr", t)
def kind(t): return t if isinstance(t, str) else t[0]


class Gen:
    def __init__(self, r):
        self.r = r
        self.out = []            # tokens; "\n" breaks lines
        self.scopes = [{}]
        self.tags = {}           # name -> (kind, [(field, type, bits)])
        self.owed = {}
        self.done = set()
        self.consts = []
        self.tdefs = {}
        self.n = self.deep = self.fuel = 0
        self.wild = r.choice([0, 0, 0, 0, 0, 0.01, 0.03])     # how often types are ignored

    # -- helpers
    def name(self, p):
        self.n += 1
        if self.r.random() < 0.12 and self.scopes[-1]:
            return self.r.choice([k for k in self.all()] or ["x"]) if self.r.random() < self.wild * 3 else p + str(self.n)
        return p + str(self.n)

    def all(self):
        d = {}
        for s in self.scopes:
            d.update(s)
        return d

    def emit(self, *ts):
        for t in ts:
            if isinstance(t, (list, tuple)):
                self.emit(*t)
            else:
                self.out.append(t)

    def nl(self):
        self.out.append("\n")

    # -- types and declarators
    def basetype(self, void=False):
        r = self.r
        k = r.random()
        if k < 0.6 or (not self.tags and not self.tdefs):
            return r.choice(TYPES)
        if self.tdefs and k < 0.72:
            return ("name", r.choice(list(self.tdefs)))
        if self.tags:
            n = r.choice(list(self.tags))
            return (self.tags[n][0], n)
        return "int"

    def res(self, t):
        for _ in range(20):
            if kind(t) == "name":
                t = self.tdefs.get(t[1], "int")
            elif kind(t) == "cq":
                t = t[1]
            else:
                return t
        return "int"

    def isconst(self, t, d=5):
        for _ in range(20):
            if kind(t) == "name":
                t = self.tdefs.get(t[1], "int")
            elif kind(t) == "arr":
                t = t[1]
            elif kind(t) in ("struct", "union"):
                return d > 0 and any(self.isconst(f[1], d - 1) for f in self.tags.get(t[1], (0, []))[1])
            else:
                return kind(t) == "cq"
        return False

    def canon(self, t, d=6):
        """typedefs resolved"""
        if d == 0:
            return "int"
        k = kind(t)
        if k == "name":
            return self.canon(self.tdefs.get(t[1], "int"), d - 1)
        if k in ("ptr", "cq"):
            return (k, self.canon(t[1], d - 1))
        if k == "arr":
            return (k, self.canon(t[1], d - 1), t[2])
        if k == "fn":
            return (k, self.canon(t[1], d - 1), [self.adjust(self.canon(x, d - 1)) for x in t[2]], t[3])
        return t

    def adjust(self, t):
        while kind(t) == "cq":
            t = t[1]
        return ptr(t[1]) if kind(t) == "arr" else ptr(t) if kind(t) == "fn" else t

    def anytype(self, depth=2):
        r = self.r
        k = r.random()
        if depth == 0 or k < 0.5:
            return self.basetype()
        if k < 0.75:
            return ptr(self.anytype(depth - 1) if r.random() < 0.85 else "void")
        if k < 0.92:
            return ("arr", self.anytype(depth - 1), r.choice([1, 2, 3, 4, 5]))
        return ptr(("fn", self.basetype() if r.random() < 0.8 else "void", [self.anytype(0) for _ in range(r.choice([0, 1, 2]))], r.choice(["no", "no", "va", "old"])))

    def spec(self, t, quals=()):
        r = self.r
        if kind(t) == "name":
            w = [t[1]]
        elif kind(t) in ("struct", "union", "enum"):
            w = [t[0], t[1]]
        else:
            w = t.split()
            if w[0] == "unsigned" and len(w) == 1 and r.random() < 0.3:
                w = ["unsigned", "int"]
            elif w == ["short"] and r.random() < 0.3:
                w = ["short", "int"]
            elif w == ["long"] and r.random() < 0.3:
                w = ["int", "long"]
            if len(w) > 1 and r.random() < 0.2:
                r.shuffle(w)
        w = list(w)
        for q in quals:
            w.insert(r.choice([0, len(w)]), q)
        return w

    def decl(self, t, inner, pnames=None):
        """-> (base type, declarator tokens)"""
        k = kind(t)
        if k == "ptr":
            q = [self.r.choice(["const", "volatile"])] if self.r.random() < self.wild else []
            b = kind(t[1]) in ("arr", "fn")
            d = ["*"] + q + inner
            return self.decl(t[1], ["("] + d + [")"] if b else d)
        if k == "cq":
            return self.decl(t[1], inner)
        if k == "arr":
            return self.decl(t[1], inner + ["["] + ([] if t[2] is None else self.cexpr(t[2])) + ["]"])
        if k == "fn":
            return self.decl(t[1], inner + ["("] + self.params(t, pnames) + [")"])
        return t, inner

    def params(self, t, pnames):
        if t[3] == "old":
            return []
        o = []
        for i, p in enumerate(t[2]):
            if i:
                o.append(",")
            nm = pnames[i] if pnames else None
            if nm is None and self.r.random() < 0.3:
                nm = "q%d" % i
            b, d = self.decl(p, [nm] if nm else [])
            o += (["register"] if pnames and self.r.random() < 0.15 else []) + self.spec(b, ["const"] if self.r.random() < self.wild else []) + d
        if not t[2]:
            return ["void"]
        if t[3] == "va":
            o += [",", "..."]
        return o

    def typename(self, t):
        b, d = self.decl(t, [])
        return self.spec(b) + d

    # -- expressions
    def num(self, v=None):
        r = self.r
        if v is None:
            v = r.choice([0, 0, 1, 1, 2, 3, 7, 10, 100, 255, 1000, 40000, 100000])
        k = r.random()
        s = "%d" % v if k < 0.8 else "0x%x" % v if k < 0.9 else ("0%o" % v if v else "0")
        return [s + ("u" if r.random() < 0.04 else "")]

    def cexpr(self, v=None):
        """constant expression (of value v)"""
        r = self.r
        if v is not None:
            k = r.random()
            if k < 0.75:
                return ["%d" % v]
            if k < 0.85:
                return ["%d" % (v - 1), "+", "1"] if v else ["1", "-", "1"]
            if k < 0.9:
                return ["(", "int", ")", "%d" % v]
            if k < 0.95:
                return ["1", "?", "%d" % v, ":", "9"]
            return ["(", "%d" % v, ")"]
        k = r.random()
        if k < 0.55:
            return self.num()
        if k < 0.7 and self.consts:
            return [r.choice(self.consts)]
        if k < 0.8:
            return ["-"] + self.num(r.randrange(9))
        if k < 0.86:
            return ["sizeof", "("] + self.typename(self.anytype(1)) + [")"]
        if k < 0.9:
            return [r.choice(["'a'", "'\\n'", "'0'"])]
        return self.cexpr() + [r.choice(["+", "-", "*", "<<", "|", "&&", "<", "=="])] + self.num(r.randrange(8))

    def sized(self, t):
        t = self.res(t)
        return kind(t) not in ("void", "fn") and not (kind(t) in ("struct", "union") and not self.tags.get(t[1], (0, []))[1])

    def same(self, a, b):
        """pointers or arrays whose elements have the same type"""
        a, b = self.canon(a), self.canon(b)
        return kind(a) in ("ptr", "arr") and kind(b) in ("ptr", "arr") and self.unq(a[1]) == self.unq(b[1])

    def unq(self, t):
        return self.unq(t[1]) if kind(t) == "cq" else t

    def matches(self, have, want):
        if kind(want) == "exact":
            return self.canon(have) == self.canon(want[1]) or kind(self.canon(want[1])) == "cq" and self.canon(have) == self.canon(want[1])[1]
        have, want = self.res(have), self.res(want)
        if self.r.random() < self.wild:
            return True
        if want == "any":
            return kind(have) != "fn" or self.r.random() < 0.1
        if want == "arith":
            return kind(have) in ARITH or kind(have) == "enum"
        if want == "integer":
            return kind(have) in INTS or kind(have) == "enum"
        if want == "scalar":
            return kind(have) in ARITH or kind(have) in ("enum", "ptr", "arr")
        if want == "object":
            return kind(have) not in ("fn", "void") and self.sized(have)
        if want == "pointer":
            return kind(have) in ("ptr", "arr")
        if kind(want) in ARITH or kind(want) == "enum":
            return kind(have) in ARITH or kind(have) == "enum"
        if kind(want) == "ptr":
            if kind(have) == "arr":
                have = ptr(have[1])
            if kind(have) != "ptr":
                return False
            a, b = self.canon(have[1]), self.canon(want[1])
            if kind(b) == "cq":
                b = b[1]
                a = a[1] if kind(a) == "cq" else a
            return a == b or ("void" in (kind(a), kind(b)) and "fn" not in (kind(a), kind(b)) and kind(a) != "cq")
        return self.canon(have) == self.canon(want)

    def path(self, lv=False):
        """a random designator: tokens, type; lv: an object that may be assigned, lv="&": whose address may be taken"""
        p = self.path1(lv)
        if p is None or self.r.random() < self.wild:
            return p and p[:2]
        o, t, isl = p
        k = kind(self.res(t))
        if lv and (isl < (2 if lv == "&" else 1) or k == "void"):
            return None
        if lv is True and (k in ("arr", "fn") or self.isconst(t)):
            return None
        return o, t

    def path1(self, lv):
        self.fuel -= 1
        if self.deep > 4 and self.r.random() < 0.8 or self.fuel < 0 and self.deep > 1:
            return None
        r = self.r
        vs = self.all()
        vs = [(n, e) for n, e in vs.items() if e[0] in ("var", "fn")]
        if not vs:
            return None
        n, e = r.choice(vs)
        o, t = [n], e[1]
        # 0: a value, 1: a bit-field or register, 2: addressable
        isl = 0 if e[0] == "fn" and lv is True else 1 if len(e) > 2 else 2
        for _ in range(r.randrange(4)):
            ct = self.isconst(t) and kind(self.res(t)) in ("struct", "union")
            whole = t
            t = self.res(t)
            k = kind(t)
            if k in ("ptr", "arr"):
                if k == "ptr" and kind(self.res(t[1])) == "fn":
                    if r.random() < 0.5:
                        o, t = ["(", "*"] + o + [")"], self.res(t[1])
                    else:
                        t = self.res(t[1])
                    o = o + ["("] + self.args(t) + [")"]
                    t, isl = t[1], 0
                    if kind(t) == "void":
                        break
                    continue
                u = self.res(t[1])
                if k == "ptr" and kind(u) in ("struct", "union") and r.random() < 0.6 and self.tags.get(u[1], (0, []))[1]:
                    f = r.choice(self.tags[u[1]][1])
                    ct = kind(t[1]) == "cq"
                    o, t = o + ["->", f[0]], ("cq", f[1]) if ct else f[1]
                    isl = 1 if f[2] else 2
                elif kind(u) == "void" or (kind(u) in ("struct", "union") and not self.tags.get(u[1], (0, []))[1]):
                    break
                elif k == "arr" and isl == 1 or k == "arr" and isl == 0:
                    t = whole
                    break
                else:
                    if r.random() < 0.6:
                        o, t = o + ["["] + self.expr("integer", 1) + ["]"], t[1]
                    else:
                        o, t = ["(", "*"] + o + [")"], t[1]
                    isl = 2
            elif k in ("struct", "union") and self.tags.get(t[1], (0, []))[1]:
                f = r.choice(self.tags[t[1]][1])
                if kind(self.res(f[1])) == "arr" and isl == 0:
                    t = whole
                    break
                o, t = o + [".", f[0]], ("cq", f[1]) if ct else f[1]
                isl = min(isl, 1 if f[2] else 2)
            elif k == "fn":
                if lv == "&" and r.random() < 0.5:
                    t = whole
                    break
                o, t, isl = o + ["("] + self.args(t) + [")"], t[1], 0
                if kind(t) == "void":
                    break
            else:
                t = whole
                break
        return o, t, isl

    def args(self, t):
        o = []
        n = len(t[2])
        if t[3] == "old":
            n = self.r.randrange(3)
        if t[3] == "va":
            n += self.r.randrange(3)
        if self.r.random() < self.wild:
            n = max(0, n + self.r.choice([-1, 1]))
        for i in range(n):
            o += ([","] if i else []) + self.expr(t[2][i] if i < len(t[2]) else "scalar", 1)
        return o

    def find(self, want, lv=False, tries=10):
        for _ in range(tries):
            p = self.path(lv)
            if p and self.matches(p[1], want):
                return p
        return None

    def expr(self, want, d):
        self.deep += 1
        try:
            return (["0"] if kind(self.res(want)) in ("ptr", "pointer") else self.num()) if self.deep > 6 else self.expr1(want, d)
        finally:
            self.deep -= 1

    def expr1(self, want, d):
        r = self.r
        want = self.res(want)
        k = kind(want)
        if r.random() < self.wild:
            want = self.anytype(1)
            k = kind(want)
        if k in ("struct", "union"):
            p = self.find(want, tries=20)
            if p and d and r.random() < 0.15:
                q = self.find(want, tries=20)
                if q:
                    return ["("] + self.expr("scalar", d - 1) + ["?"] + p[0] + [":"] + q[0] + [")"]
            return p[0] if p else ["x"] if r.random() < self.wild else ["*", "(", want[0], want[1], "*", ")", "0"]
        if k in ("ptr", "pointer", "arr"):
            x = r.random()
            p = self.find(want)
            if p and x < 0.5:
                return p[0]
            if k == "ptr" and x < 0.7:
                u = self.res(want[1])
                q = self.find(("exact", want[1]), "&") if kind(u) != "void" else self.find("any", "&")
                if q and (kind(u) == "void") <= (kind(self.res(q[1])) != "fn"):
                    return ["&"] + q[0]
            if x < 0.78 and d and k == "ptr" and self.sized(want[1]):
                return ["("] + self.expr(want, d - 1) + [r.choice("+-")] + self.expr("integer", d - 1) + [")"]
            if x < 0.83 and k == "ptr" and kind(self.res(want[1])) == "char":
                return [r.choice(['"abc"', '""', '"x%d"'])]
            if x < 0.88 and d:
                return ["("] + self.expr("scalar", d - 1) + ["?"] + self.expr(want, d - 1) + [":"] + r.choice([["0"], self.expr(want, d - 1)]) + [")"]
            if x < 0.94 and k == "ptr":
                return ["("] + self.typename(want) + [")"] + r.choice([["0"], self.expr("integer", 0)] + ([] if kind(self.res(want[1])) == "fn" else [self.prim("pointer")]))
            return ["0"]
        if k == "void":
            return self.expr("any", d)
        x = r.random()
        if d == 0 or x < 0.3:
            return self.prim(want)
        if x < 0.55:
            op = r.choice(["+", "-", "*", "/", "+", "-", "*", "%", "&", "|", "^", "<<", ">>"])
            sub = "integer" if op in "%&|^<<>>" else "arith"
            if want == "integer":
                sub = "integer"
            e = self.expr(sub, d - 1) + [op] + self.expr(sub, d - 1)
            return ["("] + e + [")"] if r.random() < 0.6 else e
        if x < 0.68:
            op = r.choice(["<", ">", "<=", ">=", "==", "!="])
            if r.random() < 0.2:
                p = self.find("pointer")
                q = p and self.find(p[1])
                if p and (op in ("==", "!=") or q and self.same(p[1], q[1]) and self.sized(self.res(p[1])[1])):
                    return ["("] + p[0] + [op] + (q[0] if q and (op not in ("==", "!=") or r.random() < 0.6) else ["0"]) + [")"]
            return ["("] + self.expr("arith", d - 1) + [op] + self.expr("arith", d - 1) + [")"]
        if x < 0.74:
            return ["("] + self.expr("scalar", d - 1) + [r.choice(["&&", "||"])] + self.expr("scalar", d - 1) + [")"]
        if x < 0.82:
            u = r.choice(["-", "+", "!", "~", "!"])
            return [u] + self.prim("scalar" if u == "!" else "integer" if u == "~" or want == "integer" else "arith")
        if x < 0.87:
            return ["("] + self.expr("scalar", d - 1) + ["?"] + self.expr(want, d - 1) + [":"] + self.expr(want, d - 1) + [")"]
        if x < 0.91:
            return ["("] + self.typename(r.choice([t for t in TYPES if want != "integer" or t in INTS])) + [")"] + self.prim("scalar" if r.random() < 0.2 and want == "integer" else "arith")
        if x < 0.94:
            return ["sizeof"] + r.choice([["("] + self.typename(self.anytype(2)) + [")"], self.prim("object")])
        if x < 0.96:
            p = self.find("pointer")
            q = p and self.find(p[1])
            if q and kind(want) in ARITH | {"arith", "scalar"} and self.same(p[1], q[1]) and self.sized(self.res(p[1])[1]) and want != "integer":
                return ["("] + p[0] + ["-"] + q[0] + [")"]
        if x < 0.98:
            return ["("] + self.expr(r.choice(["any", "scalar"]), d - 1) + [","] + self.expr(want, d - 1) + [")"]
        return ["("] + self.assign(d - 1, "integer" if k in INTS or want == "integer" else "arith") + [")"]

    def prim(self, want):
        r = self.r
        k = r.random()
        p = self.find(want, tries=6)
        if p and k < 0.7:
            return p[0]
        if want == "pointer":
            return ["0"]
        if k < 0.9:
            return self.num()
        if self.consts and k < 0.94:
            return [r.choice(self.consts)]
        if want not in ("integer",) and k < 0.97:
            return [r.choice(["1.5", "2.0", "1e3", "0.25"])]
        return [r.choice(["'a'", "'\\0'"])]

    def assign(self, d=1, want="any"):
        r = self.r
        p = self.find(want, lv=True, tries=12)
        if not p:
            return self.expr(want if want != "any" else "arith", d)
        t = self.res(p[1])
        k = r.random()
        if kind(t) in ARITH and k < 0.3:
            op = r.choice(["+=", "-=", "*=", "/="] + (["%=", "&=", "|=", "^=", "<<=", ">>="] if kind(t) in INTS else []))
            return p[0] + [op] + self.expr("integer" if op in ("%=", "&=", "|=", "^=", "<<=", ">>=") else "arith", d)
        if kind(t) == "ptr" and k < 0.15 and self.sized(t[1]):
            return p[0] + [r.choice(["+=", "-="])] + self.expr("integer", d)
        if k < 0.4 and (kind(t) in ARITH or kind(t) == "ptr" and self.sized(t[1])):
            return r.choice([p[0] + [r.choice(["++", "--"])], [r.choice(["++", "--"])] + p[0]])
        return p[0] + ["="] + self.expr(t, d)

    # -- initialisers
    def init(self, t, static, top=True):
        self.deep += 1
        try:
            return ["0"] if self.deep > 5 else self.init1(t, static, top)
        finally:
            self.deep -= 1

    def init1(self, t, static, top=True):
        r = self.r
        t = self.res(t)
        k = kind(t)
        if k == "arr":
            n = t[2] if t[2] is not None else r.choice([1, 2, 3])
            if kind(self.res(t[1])) in ("char", "unsigned char", "signed char") and r.random() < 0.5:
                s = ['"' + "abcdef"[:min(n, 6) if r.random() < 0.8 else 3] + '"']
                return ["{"] + s + ["}"] if r.random() < 0.2 else s
            m = r.randrange(1, n + 1) if r.random() > self.wild else n + 1
            o = []
            for i in range(m):
                o += ([","] if i else []) + self.init(t[1], static or top, False)
            if not top and r.random() < 0.15:
                return o
            return ["{"] + o + ([","] if r.random() < 0.15 else []) + ["}"]
        if k in ("struct", "union"):
            fs = self.tags.get(t[1], (0, []))[1]
            if not static and top and r.random() < 0.4:
                p = self.find(t)
                if p:
                    return p[0]
            if k == "union":
                fs = fs[:1]
            if not fs:
                return ["{", "0", "}"]
            m = r.randrange(1, len(fs) + 1)
            o = []
            for i in range(m):
                o += ([","] if i else []) + self.init(fs[i][1], True, False)
            if not top and r.random() < 0.15:
                return o
            return ["{"] + o + ([","] if r.random() < 0.15 else []) + ["}"]
        if static or not top:
            if k == "ptr":
                x = r.random()
                u = self.res(t[1])
                g = [n for n, e in self.scopes[0].items() if e[0] in ("var", "fn") and (self.matches(ptr(e[1]), t) or self.matches(e[1], t))]
                if kind(u) == "char" and x < 0.4:
                    return [r.choice(['"abc"', '"q"'])]
                if g and x < 0.85:
                    n = r.choice(g)
                    gt = self.res(self.scopes[0][n][1])
                    if kind(gt) == "arr" and self.matches(gt, t):
                        return [n] + (["+", "1"] if r.random() < 0.2 else [])
                    if self.matches(ptr(self.scopes[0][n][1]), t):
                        return ([] if kind(gt) == "fn" and r.random() < 0.5 else ["&"]) + [n]
                return ["0"]
            e = self.cexpr() if r.random() < 0.9 else ["1.5"]
            if r.random() < self.wild:
                e = self.expr(t, 1)
        else:
            e = self.expr(t, 2)
        return ["{"] + e + ["}"] if r.random() < 0.06 else e

    # -- declarations
    def vardecl(self, file):
        self.fuel = 120
        r = self.r
        cls = r.choice(["", "", "", "", "static", "extern"]) if file else r.choice(["", "", "", "", "static", "register", "auto", "extern"])
        base = self.basetype()
        q = ["const"] if r.random() < 0.1 and kind(base) != "name" else ["volatile"] if r.random() < 0.04 and self.wild else []
        o = ([cls] if cls else []) + self.spec(base, q)
        if q == ["const"]:
            base = ("cq", base)
        n = r.choice([1, 1, 1, 2, 3])
        for i in range(n):
            t = base
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                k = r.random()
                if k < 0.5:
                    t = ptr(t)
                elif k < 0.85:
                    t = ("arr", t, r.choice([1, 2, 3, 4]))
                elif kind(t) not in ("arr", "fn"):
                    t = ptr(("fn", t, [self.anytype(0) for _ in range(r.randrange(3))], "no")) if kind(t) != "cq" else ptr(t)
            nm = self.name("v")
            t2 = t
            if kind(t) == "arr" and r.random() < 0.15 and cls != "register":
                t2 = ("arr", t[1], None)
            b, d = self.decl(t2, [nm])
            o += ([","] if i else []) + d
            e = ("var", t, 1) if cls == "register" else ("var", t)
            if r.random() < 0.5:
                self.scopes[-1][nm] = e
            if (cls != "extern" or r.random() < self.wild) and (r.random() < 0.45 or t2 != t and (r.random() < 0.9)):
                o += ["="] + self.init(t2, file or cls == "static")
            self.scopes[-1][nm] = e
        self.emit(o, ";")
        self.nl()

    def structdecl(self, file):
        r = self.r
        k = r.choice(["struct", "struct", "union"])
        n = self.name("S")
        if r.random() < 0.12:
            self.emit(k, n, ";")
            self.nl()
            if r.random() < 0.5:
                nm = self.name("p")
                self.emit(k, n, "*", nm, ";")
                self.nl()
                self.tags[n] = (k, [])
                self.scopes[-1][nm] = ("var", ptr((k, n)))
        self.emit(k, n, "{")
        if r.random() < 0.3:
            self.nl()
        fs = []
        for i in range(r.choice([1, 1, 2, 2, 3, 4])):
            f = "f%d" % (i + 1) if r.random() > self.wild else "f1"
            if r.random() < 0.12:
                t = r.choice(["int", "unsigned"])
                self.emit(self.spec(t), [f] if r.random() < 0.85 else [], ":", self.cexpr(r.choice([1, 3, 7, 16, 32])), ";")
                if self.out[-3] != ":" or True:
                    fs.append((f, t, True))
            else:
                t = self.anytype(2) if r.random() < 0.85 else ptr((k, n))
                b, d = self.decl(t, [f])
                c = r.random() < 0.04 and kind(t) not in ("ptr", "arr", "name")
                self.emit(self.spec(b, ["const"] if c else []), d, ";")
                fs.append((f, ("cq", t) if c else t, False))
            if r.random() < 0.3:
                self.nl()
        self.emit("}")
        if n not in self.tags or not self.tags[n][1]:
            self.tags[n] = (k, fs)
        if r.random() < 0.3:
            nm = self.name("s")
            self.emit(nm)
            self.scopes[-1][nm] = ("var", (k, n))
        self.emit(";")
        self.nl()

    def enumdecl(self):
        r = self.r
        n = self.name("E")
        self.emit("enum", n, "{")
        for i in range(r.randrange(1, 5)):
            c = self.name("c")
            self.emit([","] if i else [], c)
            if r.random() < 0.4:
                self.emit("=", self.cexpr())
            self.consts.append(c)
        self.emit("}")
        if r.random() < 0.2:
            nm = self.name("e")
            self.emit(nm)
            self.scopes[-1][nm] = ("var", ("enum", n))
        self.emit(";")
        self.nl()
        self.tags[n] = ("enum", [])

    def typedef(self):
        n = self.name("T")
        t = self.anytype(2)
        b, d = self.decl(t, [n])
        self.emit("typedef", self.spec(b), d, ";")
        self.nl()
        self.tdefs.setdefault(n, t)

    def fntype(self):
        r = self.r
        ps = [self.anytype(1 if r.random() < 0.5 else 0) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        ps = [ptr(p[1]) if kind(p) == "arr" else p for p in ps]
        ret = "void" if r.random() < 0.25 else self.basetype() if r.random() < 0.8 else ptr(self.basetype())
        return ("fn", ret, ps, "va" if ps and r.random() < 0.08 else "no")

    def proto(self):
        n = self.name("g")
        t = self.fntype()
        if self.r.random() < 0.12:
            t = ("fn", t[1], [], "old")
        b, d = self.decl(t, [n])
        at = len(self.out)
        self.emit(self.r.choice([[], [], ["extern"], ["static"]]), self.spec(b), d, ";")
        self.nl()
        if "static" in self.out[at:]:
            self.owed[n] = t
        self.scopes[0][n] = ("fn", t)
        if self.r.random() < 0.15:
            b, d = self.decl(t, [n])
            self.emit(self.spec(b), d, ";")
            self.nl()

    def function(self, owed=None):
        r = self.r
        protos = [n for n, e in self.scopes[0].items() if e[0] == "fn" and n not in self.done]
        if owed:
            n, t = owed, self.owed[owed]
        elif protos and r.random() < 0.35:
            n = r.choice(protos)
            t = self.scopes[0][n][1]
        else:
            n, t = self.name("h"), self.fntype()
        pn = ["a%d" % (i + 1) for i in range(len(t[2]))]
        self.owed.pop(n, 0)
        if n in self.done and r.random() > self.wild:
            return
        self.done.add(n)
        if t[3] == "old":
            pn = []
        b, d = self.decl(t, [n], pn)
        self.emit(["static"] if r.random() < (0.15 if n.startswith("h") else self.wild) else [], self.spec(b), d)
        if r.random() < 0.7:
            self.nl()
        self.emit("{")
        self.nl()
        self.scopes[0][n] = ("fn", t)
        self.scopes.append({a: ("var", p) for a, p in zip(pn, t[2])})
        self.ret = t[1]
        self.labels = ["L%d" % i for i in range(r.choice([0, 0, 0, 1, 2]))]
        self.todo = list(self.labels)
        tags, tdefs, consts = dict(self.tags), dict(self.tdefs), list(self.consts)
        self.body(r.choice([2, 3, 4, 6]), [])
        if kind(self.res(t[1])) != "void" and r.random() < 0.8:
            self.emit("return", self.expr(t[1], 1), ";")
            self.nl()
        for l in self.todo:
            if r.random() > self.wild:
                self.emit(l, ":", ";")
                self.nl()
        self.tags, self.tdefs, self.consts = tags, tdefs, consts
        self.scopes.pop()
        self.emit("}")
        self.nl()

    def body(self, n, ctx):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.random()
            if k < 0.86:
                self.vardecl(False)
            elif k < 0.91:
                self.structdecl(False)
            elif k < 0.95:
                self.enumdecl()
            else:
                self.typedef()
        for _ in range(n):
            self.stmt(3, ctx)

    def sub(self, d, ctx):
        self.stmt(d - 1, ctx)

    def block(self, d, ctx):
        self.emit("{")
        self.nl()
        self.scopes.append({})
        tags, tdefs, consts = dict(self.tags), dict(self.tdefs), list(self.consts)
        if self.r.random() < 0.4:
            self.vardecl(False)
        for _ in range(self.r.choice([0, 1, 2, 3])):
            self.stmt(d - 1, ctx)
        self.tags, self.tdefs, self.consts = tags, tdefs, consts
        self.scopes.pop()
        self.emit("}")
        self.nl()

    def stmt(self, d, ctx):
        self.fuel = 120
        r = self.r
        k = r.random()
        w = r.random() < self.wild
        if d <= 0 or k < 0.42:
            self.emit(self.assign(2) if r.random() < 0.75 else self.expr("any", 2), ";")
        elif k < 0.5:
            self.emit("if", "(", self.expr("scalar", 2), ")")
            self.nl()
            self.sub(d, ctx)
            if r.random() < 0.45:
                self.emit("else")
                self.sub(d, ctx)
            return
        elif k < 0.56:
            self.emit("while", "(", self.expr("scalar", 2), ")")
            self.sub(d, ctx + ["loop"])
            return
        elif k < 0.61:
            self.emit("for", "(", self.assign(1) if r.random() < 0.7 else [], ";", self.expr("scalar", 1) if r.random() < 0.7 else [], ";",
                      self.assign(1) if r.random() < 0.7 else [], ")")
            self.sub(d, ctx + ["loop"])
            return
        elif k < 0.66:
            self.emit("do")
            self.sub(d, ctx + ["loop"])
            self.emit("while", "(", self.expr("scalar", 2), ")", ";")
        elif k < 0.72:
            self.emit("switch", "(", self.expr("integer", 1), ")", "{")
            self.nl()
            vs = r.sample(range(12), r.randrange(1, 5))
            df = r.random() < 0.5
            for v in vs:
                self.emit("case", self.cexpr(v) if r.random() < 0.9 else self.cexpr(), ":")
                if r.random() < 0.7:
                    self.stmt(d - 1, ctx + ["switch"])
                else:
                    self.emit(";")
                if df and r.random() < 0.3:
                    df = False
                    self.emit("default", ":", ";")
                if r.random() < 0.5:
                    self.emit("break", ";")
                self.nl()
            self.emit("}")
        elif k < 0.8:
            self.block(d, ctx)
            return
        elif k < 0.84:
            if ctx or w:
                self.emit("break", ";")
            else:
                self.emit(";")
        elif k < 0.86:
            if "loop" in ctx or w:
                self.emit("continue", ";")
            else:
                self.emit(";")
        elif k < 0.92:
            t = self.ret
            if (kind(t) == "void") != w:
                self.emit("return", ";")
            else:
                self.emit("return", self.expr(t, 2), ";")
        elif k < 0.95 and self.labels:
            self.emit("goto", r.choice(self.labels), ";")
        elif k < 0.97 and self.todo:
            l = self.todo.pop()
            self.emit(l, ":")
            self.sub(d, ctx)
            return
        else:
            self.emit(self.odd() if self.wild or r.random() < 0.02 else self.expr("scalar", 2), ";")
        self.nl()

    def odd(self):
        """less common expressions"""
        r = self.r
        k = r.randrange(12)
        if k == 0:
            return ["undeclared%d" % r.randrange(3), "("] + self.args(("fn", "int", [], "old")) + [")"]
        if k == 1:
            return self.expr("pointer", 1) + [r.choice(["+", "-", "<", "==", "*", "&&"])] + self.expr("scalar", 1)
        if k == 2:
            return ["("] + self.typename(self.anytype(2)) + [")"] + self.prim("any")
        if k == 3:
            return self.prim("any") + [r.choice(["=", "+=", "*=", "%=", "|="])] + self.prim("any")
        if k == 4:
            return ["sizeof"] + self.prim("any")
        if k == 5:
            return ["&"] + self.prim("any")
        if k == 6:
            return ["*"] + self.expr("scalar", 1)
        if k == 7:
            return ["(", "void", ")"] + self.prim("any")
        if k == 8:
            return self.prim("any") + ["?"] + self.prim("any") + [":"] + self.prim("any")
        if k == 9:
            p = self.path()
            return (p[0] if p else ["x"]) + [r.choice([".", "->"]), r.choice(["f1", "f2", "f3"])]
        if k == 10:
            p = self.path()
            return (p[0] if p else ["x"]) + ["("] + (self.args(p[1]) if p and kind(p[1]) == "fn" else []) + [")"]
        return self.prim("any") + ["["] + self.prim("any") + ["]"]

    def unit(self):
        r = self.r
        for _ in range(r.choice([2, 3, 4, 6, 8])):
            k = r.random()
            if k < 0.42:
                self.vardecl(True)
            elif k < 0.6:
                self.structdecl(True)
            elif k < 0.68:
                self.enumdecl()
            elif k < 0.78:
                self.typedef()
            else:
                self.proto()
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            self.function()
            if r.random() < 0.2:
                self.vardecl(True)
        for n in list(self.owed):
            if r.random() > self.wild:
                self.function(n)
        return self.out


SNIPPETS = """const int kk = 1 ;|kk = 2 ;|struct nosuch zz ;|extern int arr [ ] ;|static int fwd ( void ) ;|fwd ( ) ;|int dup ; double dup ;|int 5 ;
|enum { ee = 1.5 } ;|struct { int a ; int a ; } sa ;|struct { int b : 33 ; } sb ;|typedef int T1 ; typedef int T1 ;|register int rr ;|int ( * fp ) ( int ) = 0 ;
|void vv ;|int f0 ( ) [ 3 ] ;|int ( f1 ( void ) ) ( void ) ;|int aa [ 0 ] ;|int ab [ - 1 ] ;|int ac [ 2 ] = { 1 , 2 , 3 } ;|char ad [ 2 ] = "abc" ;|int ae = { 1 , 2 } ;
|int af [ ] ;|struct { int x ; } ag = 1 ;|extern int ah = 2 ;|static extern int ai ;|short long aj ;|unsigned double ak ;|long char al ;|const const int am ;
|int an ( void , int ) ;|int ao ( int a , int a ) ;|int ap ( ... ) ;|int aq ( static int a ) ;|union { int : 3 ; } ar ;|struct { } as ;|struct { int f ( void ) ; } at ;
|break ;|continue ;|case 1 : ;|default : ;|goto nowhere ;|return 1 ;|return ;|1 = 2 ;|& 1 ;|* 1 ;|"abc" = 0 ;|'a' ++ ;|1 . x ;|x -> y ;|if ( ) ;|while ( 1 ;|do ; while ( 1 )
|for ( ; ; ;  ) ;|else ;|sizeof ( void ) ;|( struct nosuch ) 1 ;|int late ;|{ int in ; in = 1 ; int late ; }|switch ( 1.5 ) ;|switch ( 1 ) { case 1 : case 1 : ; }
|switch ( 1 ) { default : default : ; }|lab : lab : ;|( void ) 0 + 1 ;|! ( void ) 0 ;|- "abc" ;|~ 1.5 ;|1.5 % 2 ;|1 << 1.5 ;|"a" * 2 ;|"a" + "b" ;|1 ? 2 : "a" ;|1 ? ( void ) 0 : 2 ;
|( 1 , 2 ) = 3 ;|( int ) 1 = 2 ;|sizeof 1 = 2 ;|undeclaredvar + 1 ;|undeclaredfn ( 1 ) ;|int undeclaredfn ;|struct S1 { int a ; } ; struct S1 { int b ; } ;|union S1 * us ;
|enum S1 ue ;|enum unknown un ;|typedef int T9 = 1 ;|int g9 ( T8 x ) ;|int a9 , ;|int = 1 ;|int a8 = ;|( ;|) ;|] ;|a [ ;|f ( , ) ;|f ( 1 , ) ;|+ ;|1 + ;|1 2 ;|a b ;""".replace("\n", "").split("|")


def mutate(r, toks):
    """one disturbance of a token list"""
    t = list(toks)
    if not t:
        return t
    real = [i for i, x in enumerate(t) if x != "\n"]
    i = r.choice(real)
    k = r.random()
    if k < 0.16:
        del t[i]
    elif k < 0.26:
        t.insert(i, t[i])
    elif k < 0.34:
        j = real[min(real.index(i) + 1, len(real) - 1)]
        t[i], t[j] = t[j], t[i]
    elif k < 0.6:
        ids = sorted({x for x in t if x[0].isalpha() and x not in KEYWORDS})
        where = [j for j in real if t[j] in ids]
        if where:
            t[r.choice(where)] = r.choice(ids)
    elif k < 0.68:
        t[i] = r.choice(PUNCT)
    elif k < 0.74:
        t.insert(i, r.choice(PUNCT))
    elif k < 0.8:
        where = [j for j in real if t[j] in ("int", "char", "double", "short", "unsigned", "long", "float", "void", "struct", "union", "enum", "const")]
        if where:
            t[r.choice(where)] = r.choice(["int", "char", "double", "void", "struct", "union", "unsigned", "const"])
    elif k < 0.84:
        t.insert(i, r.choice(["const", "static", "int", "extern", "typedef", "sizeof", "void", "register", "*", "&", "1"]))
    elif k < 0.88:
        j = r.choice(real)
        t[i:i] = t[j:j + r.randrange(1, 5)]
    elif k < 0.9:
        del t[i:]
    else:
        # a whole snippet after a line end
        ends = [j + 1 for j, x in enumerate(t) if x == "\n"] or [0]
        j = r.choice(ends)
        t[j:j] = r.choice(SNIPPETS).split() + ["\n"]
    return t


def layout(r, toks):
    """-> (text, tokens with line numbers, number of the last line)"""
    lines, cur, line = [], [], 1
    out = []
    split = r.choice([0, 0, 0.01, 0.05])
    for i, t in enumerate(toks):
        nxt = toks[i + 1] if i + 1 < len(toks) else ""
        if t == "\n":
            if nxt in ("(", ":"):
                continue
            lines.append(" ".join(cur))
            cur = []
            line += 1
            continue
        cur.append(t)
        out.append((t, line))
        if r.random() < split and nxt not in ("(", ":", "\n") and cur:
            lines.append(" ".join(cur))
            cur = []
            line += 1
    if cur:
        lines.append(" ".join(cur))
        line += 1
    return "\n".join(lines) + "\n", out, line


ESC = {"'a'": 97, "'\\n'": 10, "'0'": 48, "'\\0'": 0}


def case(name, toks):
    """the specification's view of the tokens"""
    xs, ss, vs, ls = [], [], [], []
    for t, l in toks:
        x, s, v = t, "", 0
        if t in ESC:
            x, v = "NUM", ESC[t]
        elif t[0] == '"':
            x, v = "STR", len(t) - 2
        elif t[0].isdigit():
            if "." in t or ("e" in t and not t.startswith("0x")):
                x = "FLT"
            else:
                x = "NUM"
                if t.endswith("u"):
                    s, t = "u", t[:-1]
                v = int(t, 16) if t.startswith("0x") else int(t, 8) if len(t) > 1 and t[0] == "0" else int(t)
        elif (t[0].isalpha() or t[0] == "_") and t not in KEYWORDS:
            x, s = "ID", t
        xs.append(x)
        ss.append(s)
        vs.append(v)
        ls.append(l)
    return dict(name=name, x=xs, s=ss, v=vs, l=ls)


def program(r):
    while True:
        g = Gen(r)
        toks = g.unit()
        n = sum(x != "\n" for x in toks)
        if 20 < n < 420:
            break
    for _ in range(r.choice([0, 0, 0, 0, 1, 1, 1, 2])):
        toks = mutate(r, toks)
    return toks


def brief(r):
    """a short unit around a few snippets"""
    t = "int x ; int a [ 4 ] ; struct S { int f1 ; } s ; int f ( int ) ;".split() + ["\n"]
    sn = [r.choice(SNIPPETS).split() + ["\n"] for _ in range(r.choice([1, 1, 2, 3]))]
    where = r.random()
    if where < 0.4:
        for q in sn:
            t += q
    t += "int main ( void ) {".split() + ["\n"]
    if where >= 0.4:
        for q in sn:
            t += q
    t += ["return", "x", ";", "}", "\n"]
    return mutate(r, t) if r.random() < 0.3 else t


# -- one rule at a time: the construct under test and the declarations it needs

QUALS = ["", "", "const", "volatile", "const volatile"]
TARGETS = ["void", "int", "int", "char", "unsigned", "signed char", "float", "struct S", "union U", "enum E", "struct inc", "int *", "T"]
HEAD = "struct S { int f1 ; int f2 ; } ; union U { int f1 ; char f2 ; } ; enum E { e1 , e2 } ; typedef int T ;".split() + ["\n"]
OPERANDS = dict(i="int i", c="char c", u="unsigned u", d="double d", f="float f", e="enum E e", s="struct S s", z="union U z", p="int * p", q="char * q", v="void * v",
                a="int a [ 3 ]", g="int g ( int )", w="void w ( void )", k="const int k", h="int ( * h ) ( int )", cp="const int * cp", vp="volatile int * vp",
                cv="const void * cv", pp="int * * pp", x="struct S * x", r="struct S r ( void )", b="struct B { int f : 3 ; } b", n="struct inc * n", y="const struct S y",
                o="int o ( )", aa="int aa [ 2 ] [ 3 ]", ep="enum E * ep", up="unsigned * up", tp="T * tp", kp="int * const kp", sa="struct S sa [ 2 ]", m="struct M { const int f ; } m")
BINARY = ["+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "<<", ">>", ",", "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=",
          "<<=", ">>=", "=", "=", "==", "-"]
UNARY = ["+", "-", "~", "!", "*", "&", "++", "--", "sizeof", "( void )", "( int )", "( char * )", "( struct S )", "( double )", "( enum E )", "( int ( * ) ( int ) )"]


def operand(r, names):
    k = r.random()
    if k < 0.12:
        return r.choice(["0", "1", "1.5", "\"ab\"", "( void * ) 0", "e1", "'a'", "0u", "( void ) 0"])
    n = r.choice(list(OPERANDS))
    names.add(n)
    k = r.random()
    if k < 0.7:
        return "b . f" if n == "b" and r.random() < 0.8 else n
    if k < 0.8:
        return "* " + n
    if k < 0.86:
        return "& " + n
    if k < 0.9:
        return n + " [ 1 ]"
    if k < 0.94:
        return n + r.choice([" ( 1 )", " ( )"])
    if k < 0.97:
        return n + r.choice([" . f1", " -> f1"])
    return r.choice(["( int ) ", "( void ) ", "( int * ) ", "- ", "! "]) + n


def quald(r, t, name):
    """a declaration of a pointer to a (qualified) type"""
    q = r.choice(QUALS)
    return " ".join(([q] if q else []) + [t, "*", name])


def target(r):
    return r.choice(TARGETS)


def rule(r):
    names, pre, body = set(), [], ""
    fam = r.randrange(12)
    if fam <= 1:                       # operators and their operands
        k = r.random()
        if k < 0.55:
            body = "%s %s %s ;" % (operand(r, names), r.choice(BINARY), operand(r, names))
        elif k < 0.72:
            body = "%s %s ;" % (r.choice(UNARY), operand(r, names))
        elif k < 0.78:
            body = "%s %s ;" % (operand(r, names), r.choice(["++", "--"]))
        elif k < 0.9:
            body = "%s ? %s : %s ;" % (r.choice([operand(r, names), "i", "i"]), operand(r, names), operand(r, names))
            names.add("i")
        else:
            w = r.choice(["if ( %s ) ;", "while ( %s ) ;", "for ( ; %s ; ) ;", "do ; while ( %s ) ;", "switch ( %s ) { case 1 : ; }", "i = i [ %s ] ;", "a [ %s ] = 1 ;", "! ( %s ) ;"])
            names |= {"a", "i"}
            body = w % operand(r, names)
    elif fam <= 3:                     # conversions between pointers
        t = target(r)
        u = t if r.random() < 0.5 else "void" if r.random() < 0.4 else target(r)
        l, rr = quald(r, t, "L"), quald(r, u, "R")
        k = r.randrange(8)
        if k == 0:
            pre, body = [l + " ;", rr + " ;"], "L = R ;"
        elif k == 1:
            pre, body = ["void F ( %s ) ;" % l, rr + " ;"], "F ( R ) ;"
        elif k == 2:
            pre, body = [rr + " ;", l.replace(" L", " F ( void )") + " { return R ; }"], ";"
        elif k == 3:
            pre, body = [rr + " ;"], "{ %s = R ; }" % l
        elif k == 4:
            pre, body = [l + " ;", rr + " ;"], "L %s R ;" % r.choice(["==", "<", "-", "!=", ">="])
        elif k == 5:
            pre, body = [l + " ;", rr + " ;", "int i ;"], "L = i ? L : R ;"
        elif k == 6:
            pre, body = [l + " ;", rr + " ;", "int i ;"], "( i ? L : R ) %s ;" % r.choice(["", "== L", "- R", "+ 1"])
        else:
            pre, body = ["%s * ;" % "", ] and [l.replace("* L", "* * L") + " ;", rr.replace("* R", "* * R") + " ;"], "L = R ;"
    elif fam <= 5:                     # two declarations of a name
        def ps():
            p = [r.choice(["int", "int", "char", "float", "double", "int *", "const int", "int [ ]", "int [ 3 ]", "int ( )", "struct S", "enum E", "unsigned", "T", "const int *"])
                 for _ in range(r.choice([1, 1, 2, 2, 3]))]
            return " , ".join(p)
        kind_ = r.random()
        if kind_ < 0.6:
            base = ps()
            def variant():
                p = base.split(" , ")
                k = r.random()
                if k < 0.3:
                    i = r.randrange(len(p))
                    p[i] = {"int": "T", "T": "int", "int [ ]": "int *", "int *": "int [ 3 ]", "int [ 3 ]": "int *", "const int": "int"}.get(p[i], p[i])
                elif k < 0.5:
                    p.append("...")
                elif k < 0.6:
                    p[r.randrange(len(p))] = ps().split(" , ")[0]
                elif k < 0.65:
                    p = p[1:]
                elif k < 0.75:
                    return ""
                elif k < 0.8:
                    p.append("int")
                return " , ".join(p) or "void"
            d = [r.choice(["", "", "", "extern", "static"]) + " " + r.choice(["int"] * 9 + ["T", "unsigned"]) + " D ( %s ) ;" % variant() for _ in range(2)]
        else:
            d = [r.choice(["", "", "", "extern", "static"]) + " " + r.choice(["int", "int", "int", "T", "const int", "unsigned", "struct S"]) + " " +
                 r.choice(["D", "D", "D [ ]", "D [ 3 ]", "D [ 2 ]", "* D", "D [ ] [ 2 ]", "D [ 2 ] [ 2 ]", "( * D ) ( )", "( * D ) ( int )", "* D [ 2 ]"]) +
                 r.choice(["", "", "", "", "", " = 0", " = { 0 }"]) + " ;" for _ in range(2)]
            if r.random() < 0.4:
                d[1] = d[0]
        k = r.random()
        if k > 0.6 and r.random() < 0.8:
            d[1] = "extern " + d[1].replace("static", "").replace("extern", "")
            d[0] = d[0] if k < 0.75 else "extern " + d[0].replace("static", "").replace("extern", "")
        d = [" ".join(x.split()) for x in d]
        if r.random() < 0.5:
            d[1] += " " + r.choice(["sizeof D ;", "D ( 1 ) ;", "D [ 1 ] ;", "sizeof D [ 0 ] ;", "D ( \"a\" ) ;", "D = 1 ;", "D ( & D ) ;", "D [ 1 ] [ 1 ] = 1 ;", "& D == & D ;", "( * D ) ( 1 ) ;"])
        if k < 0.6:
            pre = d
        elif k < 0.75:
            pre, body = [d[0]], d[1]
        elif k < 0.85:
            body = " ".join(d)
        elif k < 0.92:
            body = "{ %s } { %s }" % (d[0], d[1])
        else:
            pre, body = [], "{ %s { %s } }" % (d[0], d[1])
    elif fam == 6:                     # calls
        n = r.randrange(4)
        p = [r.choice(["int", "char", "double", "int *", "void *", "struct S", "const char *", "enum E"]) for _ in range(n)]
        va = " , ..." if p and r.random() < 0.35 else ""
        have = max(0, n + r.choice([0, 0, 0, -1, 1, 2, -2]))
        args = []
        for i in range(have):
            if i < n and r.random() < 0.85:
                args.append({"int": "1", "char": "i", "double": "1.5", "int *": "& i", "void *": "& i", "struct S": "s", "const char *": "\"x\"", "enum E": "e1"}[p[i]])
            else:
                args.append(operand(r, names))
        names |= {"i", "s"}
        pre = ["%s C ( %s%s ) ;" % (r.choice(["int", "void", "struct S"]), " , ".join(p) or r.choice(["void", ""]), va)]
        body = r.choice(["C ( %s ) ;", "i = C ( %s ) ;", "C ( %s ) , 1 ;", "s = C ( %s ) ;", "( * C ) ( %s ) ;", "( & C ) ( %s ) ;"]) % " , ".join(args)
    elif fam == 7:                     # members
        ms = []
        nm = r.randrange(1, 5)
        odd = {r.randrange(nm) for _ in range(r.choice([0, 1, 1, 1, 2]))}
        for j in range(nm):
            if j not in odd:
                ms.append(r.choice(["int f%d ;", "int f%d : 3 ;", "unsigned f%d : 9 ;", "char f%d ;", "int * f%d ;", "struct S f%d ;"]) % j)
                continue
            n = r.choice(["f%d" % j, "f%d" % j, "f0", "", ""])
            if r.random() < 0.55:
                w = r.choice(["0", "1", "31", "32", "33", "- 1", "- 1", "e2", "2 - 1", "1 - 2", "1.5", "i", "sizeof ( int )"])
                if w == "i":
                    names.add("i")
                ms.append("%s %s : %s ;" % (r.choice(["int", "int", "int", "unsigned", "unsigned", "signed", "char", "T", "enum E", "const int", "long", "float", "struct S"]), n, w))
            else:
                n = n or r.choice(["", "f%d" % j])
                ms.append("%s %s ;" % (r.choice(["int", "int *", "struct S", "struct inc", "struct inc *", "void", "void *", "struct X *", "struct X", "T", "const int"]),
                                       r.choice([n, n, n + " [ 2 ]", n + " [ ]", n + " ( void )", "( * %s ) ( void )" % n if n else "", n])))
        d = "%s X { %s } %s ;" % (r.choice(["struct", "struct", "union"]), " ".join(ms), r.choice(["", "X", "* X"]))
        if r.random() < 0.8:
            pre = [d]
        else:
            body = d
        if r.random() < 0.3:
            body += " sizeof ( struct X ) ;"
    elif fam == 8:                     # statements in their contexts
        def leaf():
            k = r.random()
            return ("break ;" if k < 0.2 else "continue ;" if k < 0.4 else "case %s : ;" % r.choice(["1", "1", "2", "3", "e1", "i", "'a'", "- 1", "1.0"]) if k < 0.6 else
                    "default : ;" if k < 0.7 else "goto %s ;" % r.choice("lm") if k < 0.8 else "%s : ;" % r.choice("lm") if k < 0.9 else "return %s;" % r.choice(["", "1 ", "i "]))
        def stm(d):
            k = r.random()
            if d == 0 or k < 0.3:
                return leaf()
            return (r.choice(["while ( i ) %s", "for ( ; ; ) %s", "do %s while ( i ) ;", "if ( i ) %s", "if ( i ) ; else %s"]) % stm(d - 1) if k < 0.5 else
                    "switch ( i ) %s" % stm(d - 1) if k < 0.6 else
                    "switch ( i ) { %s %s }" % (stm(d - 1), stm(d - 1)) if k < 0.8 else "{ %s %s }" % (stm(d - 1), stm(d - 1)))
        names.add("i")
        body = " ".join(stm(3) for _ in range(r.choice([1, 1, 2])))
        if r.random() < 0.5 and "goto" in body:
            body += " l : m : ;"
    elif fam == 9:                     # initialisers
        t = r.choice(["int D", "char D", "int * D", "int D [ 2 ]", "int D [ ]", "char D [ ]", "char D [ 3 ]", "struct S D", "union U D", "struct S D [ 2 ]", "struct S D [ ]",
                      "int D [ 2 ] [ 2 ]", "int D [ ] [ 2 ]", "char D [ 2 ] [ 3 ]", "const char * D", "char * D [ ]", "float D", "enum E D", "struct S * D", "int ( * D ) ( int )", "void * D"])
        def ini(d):
            k = r.random()
            if d and k < 0.6:
                return "{ %s %s}" % (" , ".join(ini(d - 1) for _ in range(r.choice([1, 1, 2, 2, 3]))), r.choice(["", "", ", "]))
            return operand(r, names) if k < 0.75 else r.choice(["0", "1", "\"ab\"", "\"abc\"", "\"\"", "& i", "1.5", "e1", "s", "g"])
        i = ini(r.choice([0, 1, 1, 2]))
        names |= {"i", "s", "g"}
        d = "%s %s = %s ;" % (r.choice(["", "", "static", "const", "register", "extern", "auto"]), t, i)
        if r.random() < 0.5:
            pre, body = [], d
        else:
            pre = [d]
    elif fam == 10:                    # parameters and locals
        p = ["%s %s" % (r.choice(["int", "int *", "struct S", "T", "char", "void", "struct inc", "register int", "static int", "const int", "double"]),
                        r.choice(["x%d" % j, "x%d" % j, "x%d" % j, "x0", "T", "x1 [ ]", "( * x2 ) ( )", "", "S"])) for j in range(r.choice([1, 2, 3]))]
        n = r.choice(["x0", "x1", "T", "e1", "S", "y"])
        b = "%s %s %s %s;" % (r.choice(["int", "static int", "extern int", "typedef int", "register int", "enum { x0 , e9 }", "struct x0 { int f ; }", "double"]),
                              n, r.choice(["", "", "", "( void ) ", "[ 2 ] "]), r.choice(["", "", "= 0 "]))
        pre = ["%s P ( %s ) { %s %s }" % (r.choice(["int", "int", "void"]), " , ".join(p), b if r.random() < 0.8 else "{ %s }" % b, r.choice(["", "x0 = 1 ;", "return x0 ;", "return ;", "y = 1 ;"]))]
    else:                              # specifiers
        sp = [r.choice(["int", "unsigned", "signed", "short", "long", "char", "float", "double", "void", "const", "volatile", "static", "extern", "register", "auto", "typedef", "T",
                        "struct S", "enum E"]) for _ in range(r.choice([1, 2, 2, 3, 3, 4]))]
        d = "%s D %s ;" % (" ".join(sp), r.choice(["", "", "( void )", "[ 2 ]"]))
        if r.random() < 0.5:
            pre = [d]
        else:
            body = d
        if r.random() < 0.5:
            body += " %s ;" % r.choice(["D = 1", "D", "& D", "sizeof D", "sizeof ( D )", "D ( )", "( D ) 1"])
    t = list(HEAD)
    local = r.random() < 0.15 and fam <= 1
    decls = [OPERANDS[n].split() + [";"] for n in sorted(names)]
    if not local:
        for d in decls:
            t += d + ["\n"]
    for d in pre:
        t += d.split() + ["\n"]
    t += r.choice(["int main ( void ) {", "void main ( void ) {"]).split() + ["\n"]
    if local:
        for d in decls:
            t += d + ["\n"]
    t += body.split() + ["\n"]
    t += ["}", "\n"]
    return t
