"""C text of a Prog (cgen): spelling, parentheses, names, declarations, files."""
import re
from cgen import *

KEY = set("auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef "
          "union unsigned void volatile while out outu outf vmMain asm inline".split())
PREC = {",": 1, "=": 2, "op=": 2, "?:": 3, "||": 4, "&&": 5, "|": 6, "^": 7, "&": 8, "==": 9, "!=": 9, "<": 10, ">": 10, "<=": 10, ">=": 10, "<<": 11, ">>": 11,
        "+": 12, "-": 12, "*": 13, "/": 13, "%": 13}
LONGPARAMS = [False]     # set by L09
NAMES = list("abcdefghijklmnopqrstuvwxyz") + ["x1", "x2", "foo", "data", "bss", "code", "lit", "proc", "line", "file", "equ", "skip", "byte", "address", "pop", "A", "B", "X_",
                                              "_t", "a_very_long_identifier_name_number_one", "a_very_long_identifier_name_number_two", "LABELV", "main", "ADDI4", "end"]


class Text:
    def __init__(self, p, r, noise=1.0):
        self.p, self.r, self.noise = p, r, noise
        self.fieldnames = {}
        self.tagname = {}
        self.tdef = {}
        self.local = {}

    def on(self, prob):
        return self.r.random() < prob * self.noise

    # ---- types
    def spell(self, t):
        p, r = self.p, self.r
        if t in self.tdef and r.random() < .6:
            return self.tdef[t]
        x = p.T(t)
        if t in p.enums:
            return "enum N%d" % t
        if x["k"] in ("rec", "uni"):
            return ("struct" if x["k"] == "rec" else "union") + " " + self.tagname[t]
        return r.choice(p.spell[t])

    def decl(self, t, name, params=None, knr=False, init=None):
        """declaration of name as t"""
        p, r = self.p, self.r
        x = p.T(t)
        k = x["k"]
        if t in self.tdef and k in ("ptr", "arr") and r.random() < .5:
            return self.tdef[t] + " " + name
        if k == "ptr":
            f = p.T(x["to"])["k"]
            return self.decl(x["to"], "(*%s)" % name if f in ("arr", "fun") else "*" + name)
        if k == "arr":
            return self.decl(x["to"], "%s[%s]" % (name, "" if init == "open" else self.count(x["n"])))
        if k == "fun":
            sig = x["sig"]
            if params is None:
                if knr:
                    s = ""
                else:
                    s = ", ".join(self.decl(q, r.choice(["", "", "zz%d" % i])) if q != "..." else "..." for i, q in enumerate(sig[1:])) or "void"
            else:
                s = params
            return self.decl(sig[0], "%s(%s)" % (name, s))
        s = self.spell(t)
        return (s + " " + name).rstrip()

    def count(self, n):
        r = self.r
        if self.on(.1):
            return r.choice(["%d+%d" % (n - 1, 1), "0x%x" % n, "%d<<0" % n, "sizeof(char)*%d" % n])
        return str(n)

    def typename(self, t):
        return self.decl(t, "")

    def fname(self, t, i):
        if t not in self.fieldnames:
            pool = NAMES[:30]
            pool = [n for n in pool if n not in KEY]
            self.r.shuffle(pool)
            self.fieldnames[t] = pool
        return self.fieldnames[t][i - 1]

    # ---- expressions: list of tokens
    def number(self, x):
        r = self.r
        v, t = x["v"], x["t"]
        if t == FLOAT:
            f = unf(v)
            s = "%.9g" % f
            if self.on(.3):
                s = "%.12e" % f
            if self.on(.1) and f == int(f) and abs(f) < 1e6:
                s = "%d." % f
            if "." not in s and "e" not in s:
                s += ".0"
            if self.on(.1) and s.startswith("0.") and s[2:3].isdigit():
                s = s[1:]
            return [s + r.choice("fF")]
        u = v & 0xffffffff
        if t == INT:
            if v in self.p.consts and self.on(.3):
                return [r.choice(self.p.consts[v])[1]]
            if -128 <= v <= 127 and self.on(.15):
                c = v & 255
                esc = {10: "\\n", 9: "\\t", 92: "\\\\", 39: "\\'", 7: "\\a", 8: "\\b", 12: "\\f", 13: "\\r", 11: "\\v", 34: "\\\"", 63: "\\?"}
                if c in esc:
                    return ["'%s'" % esc[c]]
                if 32 <= c < 127 and r.random() < .7:
                    return ["'%s'" % chr(c)]
                return ["'\\%s'" % (r.choice(["%o", "x%x", "x%02x", "%03o"]) % c)]
            if v < 0:
                return ["(", "-", str(-v), ")"]
            return [r.choice([str(v)] * 4 + ["0x%x" % v, "0X%X" % v, "0%o" % v] + ["%dL" % v, "%dl" % v] * self.on(.2))]
        big = u > 0x7fffffff
        return [r.choice(["%du" % u, "%dU" % u, "0x%xu" % u, "0%oU" % u, "%dul" % u, "0x%xLU" % u] + (["0x%x" % u, "%d" % u, "0%o" % u] if big else []))]

    def ex(self, n, prec=0):
        """tokens of expression n in a place that needs this precedence"""
        p, r = self.p, self.r
        x = p.nd(n)
        k = x["k"]
        ty = None
        if k == "num":
            t, q = self.number(x), 16
        elif k == "var":
            t, q = [self.vname(x["v"])], 16
        elif k == "fun":
            t, q = [p.funcs[x["v"] - 1].name], 16
        elif k == "str":
            t, q = self.string(p.nd(p.vars[x["v"] - 1].ini)["l"][:-1]), 16
        elif k in ("neg", "plus", "bnot", "not", "deref", "addr"):
            t, q = [{"neg": "-", "plus": "+", "bnot": "~", "not": "!", "deref": "*", "addr": "&"}[k]] + self.ex(x["a"], 14), 14
        elif k == "cast":
            t, q = ["(", self.typename(x["t"]), ")"] + self.ex(x["a"], 14), 14
        elif k == "szt":
            t, q = ["sizeof", "(", self.typename(x["v"]), ")"], 14
        elif k == "sze":
            t, q = ["sizeof"] + (["("] + self.ex(x["a"]) + [")"] if r.random() < .5 else self.ex(x["a"], 14)), 14
            if t[1] == "(" and t[-1] != ")" and False:
                pass
        elif k in ("++p", "--p"):
            t, q = [k[:2]] + self.ex(x["a"], 14), 14
        elif k in ("p++", "p--"):
            t, q = self.ex(x["a"], 15) + [k[1:]], 15
        elif k == "ix":
            t, q = self.ex(x["a"], 15) + ["["] + self.ex(x["b"]) + ["]"], 15
        elif k == "fld":
            t, q = self.ex(x["a"], 15) + ["."] + [self.fieldof(x, False)], 15
        elif k == "arr":
            t, q = self.ex(x["a"], 15) + ["->"] + [self.fieldof(x, True)], 15
        elif k == "call":
            t = self.ex(x["a"], 15) + ["("]
            for i, a in enumerate(x["l"]):
                t += ([","] if i else []) + self.ex(a, 2)
            t += [")"]
            q = 15
        elif k == "out":
            t, q = [{INT: "out", UINT: "outu", FLOAT: "outf"}[x["v"]], "("] + self.ex(x["a"], 2) + [")"], 15
        elif k == "?:":
            t, q = self.ex(x["a"], 4) + ["?"] + self.ex(x["b"], 0) + [":"] + self.ex(x["c"], 3), 3
        elif k in ("=", "op="):
            t, q = self.ex(x["a"], 14) + [x["o"] + "="] + self.ex(x["b"], 2), 2
        else:
            q = PREC[k]
            t = self.ex(x["a"], q) + [k] + self.ex(x["b"], q + 1)
        if q < prec or self.on(.06):
            t = ["("] + t + [")"]
        return t

    def fieldof(self, x, arrow):
        t = self.tyof[x["a"]]
        if arrow:
            t = self.p.T(t)["to"]
        return self.fname(t, x["v"])

    def types_of_nodes(self):
        """type of every node, as in CSem!TypesOf"""
        p = self.p
        ty = [0]
        for x in p.nodes:
            k = x["k"]
            pt = lambda m: p.promoted(ty[m], p.nd(m)["fw"] if p.nd(m)["k"] in ("fld", "arr") else -1)
            us = lambda a, b: FLOAT if FLOAT in (a, b) else UINT if UINT in (a, b) else INT
            if x["t"]:
                t = x["t"]
            elif k in ("var", "str"):
                t = p.vars[x["v"] - 1].t
            elif k in ("neg", "plus", "bnot", "<<", ">>"):
                t = pt(x["a"])
            elif k == "deref":
                t = ty[x["a"]] if p.kind(ty[x["a"]]) == "fun" else p.T(ty[x["a"]])["to"]
            elif k in ("+", "-", "*", "/", "%", "&", "|", "^"):
                t = us(pt(x["a"]), pt(x["b"]))
            elif k == "?:":
                t = us(pt(x["b"]), pt(x["c"]))
            elif k == ",":
                t = ty[x["b"]]
            elif k in ("=", "op=", "++p", "--p", "p++", "p--"):
                t = ty[x["a"]]
            elif k == "ix":
                t = ty[x["a"]] if p.kind(ty[x["a"]]) in ("ptr", "arr") else ty[x["b"]]
                t = p.T(t)["to"]
            elif k == "fld":
                t = p.T(ty[x["a"]])["f"][x["v"] - 1]["t"]
            elif k == "arr":
                t = p.T(p.T(ty[x["a"]])["to"])["f"][x["v"] - 1]["t"]
            elif k == "call":
                f = ty[x["a"]]
                t = p.T(p.T(f)["to"] if p.kind(f) == "ptr" else f)["to"] or p.T(p.T(f)["to"] if p.kind(f) == "ptr" else f)["sig"][0]
            else:
                t = INT
            ty.append(t)
        self.tyof = ty

    def string(self, bs):
        r = self.r
        parts, cur, hexed = [], "", False
        for b in bs:
            ch = chr(b)
            esc = {10: "\\n", 9: "\\t", 92: "\\\\", 7: "\\a", 34: "\\\""}
            if b in esc:
                e, h = esc[b], False
            elif 32 <= b < 127 and ch != "?":
                e, h = ch, False
                if hexed and ch in "0123456789abcdefABCDEF":
                    e, h = "\\%03o" % b, False
            elif r.random() < .6:
                e, h = "\\%03o" % b, False
            else:
                e, h = "\\x%02x" % b, True
            cur += e
            hexed = h
            if self.on(.05):
                parts.append(cur)
                cur, hexed = "", False
        parts.append(cur)
        return ['"%s"' % s for s in parts]

    def join(self, toks):
        r = self.r
        s = ""
        word = lambda c: c.isalnum() or c in "_.'\"" or ord(c) > 127
        for t in toks:
            if not t:
                continue
            if s:
                a, b = s[-1], t[0]
                if (word(a) and word(b)) or (b in "+-" and a in "eE" and re.search(r"(^|\W)\.?\d[\w.]*$", s)) or (a in "+-&|<>=*/%!^:?" and b in "+-&|<>=*/%!^.:?"):
                    s += " "
                elif self.on(.4):
                    s += r.choice([" ", " ", " ", " ", "  ", "\t", "\n" if self.on(.1) else " ", "/* c */" if a != "/" and b != "/" and self.on(.1) else " "])
                elif self.noise == 0 and b not in ")];,(.[" and a not in "([.":
                    s += " "
            s += t
        return s

    def E(self, n, prec=0):
        return self.join(self.ex(n, prec))

    # ---- names
    def vname(self, id):
        v = self.p.vars[id - 1]
        return v.name

    def refs(self, n, out):
        p = self.p
        st = [n]
        while st:
            m = st.pop()
            if not m:
                continue
            x = p.nd(m)
            if x["k"] in ("var", "decl"):
                out.add(("v", x["v"]))
                if x["k"] == "decl" and p.vars[x["v"] - 1].ini:
                    st.append(p.vars[x["v"] - 1].ini)
            elif x["k"] == "fun":
                out.add(("f", x["v"]))
            elif x["k"] == "str":
                continue
            st += [x["a"], x["b"], x["c"], x["d"]] + (x["l"] if x["k"] != "sinit" else [])
        return out

    def decls_of(self, n, deep=True):
        p = self.p
        out, st = set(), [n]
        while st:
            m = st.pop()
            if not m:
                continue
            x = p.nd(m)
            if x["k"] == "decl":
                out.add(x["v"])
            st += [x["a"], x["b"], x["c"], x["d"]] + (x["l"] if x["k"] != "sinit" else [])
        return out

    def name_locals(self, f):
        p, r = self.p, self.r
        typedefs = set(self.tdef.values())

        def pick(used):
            c = [n for n in NAMES if n not in used and n not in KEY and n not in typedefs]
            return r.choice(c[:12] if r.random() < .7 else c)

        def gname(ref):
            return p.vars[ref[1] - 1].name if ref[0] == "v" else p.funcs[ref[1] - 1].name

        def block(n, pre=()):
            inner = self.decls_of(n)
            refs = self.refs(n, set())
            outer = {gname(x) for x in refs if not (x[0] == "v" and (x[1] in inner or p.vars[x[1] - 1] in pre))}
            used = set(outer) | {None}
            here = list(pre) + [p.vars[p.nd(s)["v"] - 1] for s in p.nd(n)["l"] if p.nd(s)["k"] == "decl"]
            for v in here:
                v.name = pick(used)
                used.add(v.name)
                if LONGPARAMS[0] and v.kind == "param" and r.random() < .5:
                    v.name += "_" * r.choice([10, 30, 60])
                used.add(v.name)
            for s in p.nd(n)["l"]:
                walk(s)

        def walk(s):
            if not s:
                return
            x = p.nd(s)
            if x["k"] == "blk":
                block(s)
            elif x["k"] in ("if", "while", "do", "switch"):
                walk(x["b"])
                walk(x["c"])
            elif x["k"] == "for":
                walk(x["d"])
            elif x["k"] in ("case", "default", "label"):
                walk(x["a"])
        block(f.body, f.params)
        self.labelnames = {}

    # ---- initialisers
    def init(self, n):
        p = self.p
        x = p.nd(n)
        if x["k"] == "ilist":
            return "{" + ",".join(" " * self.on(.5) + self.init(m) for m in x["l"]) + ("," if self.on(.2) and [p.nd(m)["k"] for m in x["l"]] != ["sinit"] else "") + "}"
        if x["k"] == "sinit":
            return self.join(self.string(x["l"][:-1] if x["o"] == "nul" else x["l"]))
        return self.E(n, 2)

    def vardecl(self, v, prefix, ini):
        """declaration with initialiser"""
        p = self.p
        s = ""
        op = None
        if ini:
            x = p.nd(ini)
            t = p.T(v.t)
            if t["k"] == "arr" and x["k"] == "ilist" and self.plain(x, t) and self.on(.3):
                op = "open"
            s = " = " + self.strinit(v.t, ini) if t["k"] == "arr" else " = " + self.init(ini)
        return prefix + self.decl(v.t, v.name, init=op) + s + ";"

    def plain(self, x, t):
        return len(x["l"]) == t["n"] and all(self.p.nd(m)["k"] != "sinit" or self.p.kind(t["to"]) == "arr" for m in x["l"]) and \
            (self.p.kind(t["to"]) in ("int", "flt", "ptr") or all(self.p.nd(m)["k"] in ("ilist", "sinit") for m in x["l"]))

    def strinit(self, t, n):
        return self.init(n)

    # ---- statements
    def st(self, n, ind=1):
        p, r = self.p, self.r
        x = p.nd(n)
        k = x["k"]
        pad = "\t" * ind if self.on(.5) else "  " * ind
        sub = lambda m: self.st(m, ind + 1)
        E = self.E
        if k == "nop":
            return pad + ";\n"
        if k == "expr":
            return pad + E(x["a"]) + ";\n"
        if k == "blk":
            return pad + "{\n" + "".join(self.st(m, ind + 1) for m in x["l"]) + pad + "}\n"
        if k == "if":
            body = sub(x["b"])
            if x["c"] and self.dangles(x["b"]):
                body = pad + "{\n" + body + pad + "}\n"
            s = pad + "if (" + E(x["a"]) + ")\n" + body
            if x["c"]:
                s += pad + "else\n" + sub(x["c"])
            return s
        if k == "while":
            return pad + "while (" + E(x["a"]) + ")\n" + sub(x["b"])
        if k == "do":
            return pad + "do\n" + sub(x["b"]) + pad + "while (" + E(x["a"]) + ");\n"
        if k == "for":
            g = lambda m: E(m) if m else ""
            return pad + "for (" + g(x["a"]) + "; " + g(x["b"]) + "; " + g(x["c"]) + ")\n" + sub(x["d"])
        if k == "switch":
            return pad + "switch (" + E(x["a"]) + ")\n" + sub(x["b"])
        if k == "case":
            c = self.join(self.number(dict(v=x["v"], t=INT if not (x["v"] == -2147483648) else UINT))) if x["v"] != -2147483648 else "(-2147483647-1)"
            if x["t"] == UINT and x["v"] < 0:
                c = self.join(self.number(dict(v=x["v"], t=UINT)))
            return pad + "case " + c + ":\n" + sub(x["a"])
        if k == "default":
            return pad + "default:\n" + sub(x["a"])
        if k == "brk":
            return pad + "break;\n"
        if k == "cont":
            return pad + "continue;\n"
        if k == "goto":
            return pad + "goto " + self.label(x["v"]) + ";\n"
        if k == "label":
            return self.label(n) + ":\n" + sub(x["a"])
        if k == "ret":
            if not x["a"]:
                return pad + "return;\n"
            return pad + "return " + E(x["a"]) + ";\n"
        if k == "decl":
            v = p.vars[x["v"] - 1]
            if v.kind == "slocal":
                return pad + self.vardecl(v, "static ", v.ini) + "\n"
            q = ""
            if p.kind(v.t) in ("int", "flt") and not v.addressed:
                q = r.choice(["register ", "volatile ", "auto "]) if self.on(.15) else ""
            return pad + self.vardecl(v, q, x["a"]) + "\n"
        raise AssertionError(k)

    def dangles(self, n):
        x = self.p.nd(n)
        k = x["k"]
        if k == "if":
            return not x["c"] or self.dangles(x["c"])
        if k in ("while", "switch"):
            return self.dangles(x["b"])
        if k == "for":
            return self.dangles(x["d"])
        if k in ("case", "default", "label"):
            return self.dangles(x["a"])
        return False

    def label(self, n):
        if n not in self.labelnames:
            used = set(self.labelnames.values())
            self.labelnames[n] = self.r.choice([c for c in NAMES[:40] if c not in used and c not in KEY and c not in self.tdef.values()])
        return self.labelnames[n]

    # ---- files
    def header(self):
        p, r = self.p, self.r
        out = []
        for t in p.enums:
            out.append("enum N%d { %s };" % (t, ", ".join(n + (" = %d" % v if ex else "") for n, v, ex in p.enums[t])))
        done = set()
        for i, x in enumerate(p.types):
            t = i + 1
            if x["k"] in ("rec", "uni"):
                self.tagname.setdefault(t, "S%d" % t if r.random() < .6 else r.choice(NAMES[:20]) + "%d" % t)
                fs = []
                for j, f in enumerate(x["f"]):
                    nm = "" if f["anon"] else self.fname(t, j + 1)
                    if f["w"] >= 0:
                        fs.append("%s %s: %s;" % (r.choice(p.spell[f["t"]]), nm, self.count(f["w"]) if f["w"] else "0"))
                    else:
                        fs.append(self.decl(f["t"], nm) + ";")
                out.append("%s %s {\n  %s\n};" % ("struct" if x["k"] == "rec" else "union", self.tagname[t], "\n  ".join(fs)))
            if self.useful(x) and (t in self.tdef or self.on(.2)) and t > 0 and x["k"] != "fun":
                nm = self.tdef.get(t, "T%d" % t)
                self.tdef.pop(t, None)
                out.append("typedef %s;" % self.decl(t, nm))
                self.tdef[t] = nm
        out.append("int out(int); int outu(unsigned x); extern int outf(float);")
        return out

    def useful(self, x):
        k = x["k"]
        if k == "ptr":
            return self.useful(self.p.T(x["to"])) if self.p.kind(x["to"]) != "fun" else True
        if k == "arr":
            return self.useful(self.p.T(x["to"]))
        return k in ("int", "flt", "rec", "uni")

    def texts(self):
        p, r = self.p, self.r
        self.types_of_nodes()
        # global names
        pool = [n for n in NAMES if n not in KEY]
        r.shuffle(pool)
        pool += ["g%d" % i for i in range(400)]
        glob = [v for v in p.vars if v.kind == "global"]
        refs = {}
        for f in p.funcs:
            if f.body:
                refs[f.id] = self.refs(f.body, set())
                for m in list(refs[f.id]):
                    pass
        for v in glob:
            refs[("i", v.id)] = self.refs(v.ini, set()) if v.ini else set()
        needs = []
        for k in range(p.files):
            s = set()
            for f in p.funcs:
                if f.file == k and f.body:
                    s |= refs[f.id] | {("f", f.id)}
            for v in glob:
                if v.file == k:
                    s |= refs[("i", v.id)] | {("v", v.id)}
            needs.append(s)
        for v in glob:
            users = [k for k in range(p.files) if ("v", v.id) in needs[k]]
            v.static = users == [v.file] and r.random() < .4
        for f in p.funcs:
            users = [k for k in range(p.files) if ("f", f.id) in needs[k]]
            if f.id != 1:
                f.static = users == [f.file] and r.random() < .4
        used = set()
        for f in p.funcs:
            if f.name != "vmMain":
                f.name = pool.pop() if not f.static else None
                used.add(f.name)
        for v in glob:
            if not v.static:
                v.name = pool.pop()
                used.add(v.name)
        # file statics: names may be those of other files
        filenames = [{p.vars[i - 1].name if k == "v" else p.funcs[i - 1].name for k, i in needs[j]} for j in range(p.files)]
        for x in [f for f in p.funcs if f.static] + [v for v in glob if v.static]:
            c = [n for n in NAMES if n not in KEY and n not in filenames[x.file]]
            if getattr(p, "statics_unique", True):
                c = [n for n in pool]
            x.name = r.choice(c[:15]) if r.random() < .8 else r.choice(c)
            if x.name in pool:
                pool.remove(x.name)
            filenames[x.file].add(x.name)
        out = []
        for k in range(p.files):
            s = self.header()
            fwd = []
            for v in glob:
                if ("v", v.id) in needs[k]:
                    if v.file != k:
                        op = "open" if p.kind(v.t) == "arr" and self.on(.3) and not self.sized_use(v, k) else None
                        fwd.append("extern " + self.decl(v.t, v.name, init=op) + ";")
                    elif v.ini:
                        if self.on(.3) and not (v.static and p.kind(v.t) == "arr"):
                            fwd.append(r.choice(["static "] if v.static else ["extern ", ""]) + self.decl(v.t, v.name) + ";")
                    elif self.on(.3):
                        fwd.append(("static " if v.static else "") + self.decl(v.t, v.name) + ";")
            for f in p.funcs:
                if ("f", f.id) in needs[k] and f.body and f.id != 1:
                    fwd.append(("static " if f.static else r.choice(["", "extern "])) + self.decl(p.fun(f), f.name, knr=f.knr) + ";")
            r.shuffle(fwd)
            s += fwd
            defs = []
            for v in glob:
                if v.file == k:
                    defs.append((("v", v.id), self.vardecl(v, "static " if v.static else "", v.ini)))
            for f in p.funcs:
                if f.file == k and f.body:
                    defs.append((("f", f.id), self.fundef(f)))
            # objects first where initialisers or functions need them declared; vmMain is the first function
            order = [d for d in defs if d[0][0] == "v"]
            fs = [d for d in defs if d[0][0] == "f"]
            fs.sort(key=lambda d: (d[0][1] != 1, r.random()) if k == 0 else (r.random(),))
            res = self.sortinit(order, refs)
            s += [d[1] for d in res] + [d[1] for d in fs]
            out.append("\n".join(s) + "\n")
        return out

    def sized_use(self, v, k):
        return any(x["k"] in ("sze", "szt") for x in self.p.nodes)

    def sortinit(self, defs, refs):
        done, out = set(), []
        d = dict(defs)
        keys = [k for k, _ in defs]

        def go(k):
            if k in done or k not in d:
                return
            done.add(k)
            for q in refs.get(("i", k[1]), ()):
                if q[0] == "v":
                    go(q)
            out.append((k, d[k]))
        for k in keys:
            go(k)
        return out

    def fundef(self, f):
        p = self.p
        self.name_locals(f)
        if f.knr:
            head = self.decl(p.fun(f), f.name, params=", ".join(v.name for v in f.params))
            head += "\n" + "".join(self.decl(v.t, v.name) + ";\n" for v in f.params)
        else:
            ps = ", ".join(("register " if self.on(.05) and not v.addressed and p.kind(v.t) == "int" else "") + self.decl(v.t, v.name) for v in f.params)
            if f.va:
                ps += ", ..."
            head = self.decl(p.fun(f), f.name, params=ps or "void")
        body = "".join(self.st(m) for m in p.nd(f.body)["l"])
        return ("static " if f.static else "") + head + "\n{\n" + body + "}"
