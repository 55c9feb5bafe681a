"""Inputs for the checks of the preprocessor: files, -I directories, -D/-U options."""
import re

OPS2 = ["->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|="]
OPS1 = list("[]().&*+-~!/%<>^|?:=,;{}")
WORDS = ["x", "y", "foo", "int", "if", "else", "define", "include", "line", "x1", "_a", "L", "LL", "u8", "defined", "zz_9", "a__b", "ifdef", "endif"]
NUMS = ["0", "1", "42", "0x1F", "1.5", "1e5", "1e+5", "2.E-3f", ".5", "0777", "10UL", "3..2", "0xE+1", "1x2y", "6.02e23L", "1.2.3", "1_2", "1ee+5", "0x1_F", ".1_e-"]
STRS = ['"s"', '""', '"a b"', '"\\n"', '"\\""', '"\\\\"', '"/* no */"', '"// no"', '"a\\x41b"', '"it\'s"', '"#"', '"a  b"', 'L"w"']
CHRS = ["'a'", "'\\n'", "'\\''", "'\"'", "'\\\\'", "' '", "'\\0'", "L'x'", "'\\x41'"]
TRI = {"#": "=", "[": "(", "\\": "/", "]": ")", "^": "'", "{": "<", "|": "!", "}": ">", "~": "-"}


class Gen:
    def __init__(self, r):
        self.r = r
        self.files = {}
        self.dirs = []
        self.opts = []
        self.n = 0
        self.noise = r.choice([0, 0, 0, .01, .03, .1])
        self.blank = r.choice([0, .05, .3])

    def uniq(self, p="t"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def ws(self):
        """white space that separates tokens"""
        r = self.r
        if r.random() > self.blank:
            return " "
        return r.choice([" ", "  ", "\t", " \t ", "/**/", " /* c */ ", "/* a\n b */", "/***/", "/* \" ' */", " /*/ x */ ", "\v", "\f", "\\\n ", " \\\n", "/*\\\n*/", "/* * / // */"])

    def ows(self):
        return self.ws() if self.r.random() < .3 else ""

    def hws(self):
        """white space without comments over several lines (for use inside directives)"""
        return self.r.choice([" ", " ", " ", "  ", "\t", " /* c */ ", "/**/", " \\\n"]) if self.r.random() < self.blank else " "

    def eol(self):
        r = self.r
        if r.random() > self.blank * .5:
            return "\n"
        return r.choice([" \n", " // c\n", "// don't\n", " /* c */\n", "\n\n", "\n\n\n", "\n\n\n\n\n\n\n\n\n\n\n\n", "/* a\n\n b */\n", " // a \\\n b\n", "\\\n\n", "\t\n"])

    def join(self, toks):
        """the tokens as text; white space where they would run together, elsewhere at random"""
        out = ""
        for t in toks:
            if out and t not in (" ",):
                out += self.ws() if self.r.random() < .7 or sticky(out, t) else ""
            out += t
        return out

    def mangle(self, s):
        """trigraphs and line splices"""
        r = self.r
        if not self.noise:
            return s
        out = []
        for i, c in enumerate(s):
            if c in TRI and r.random() < self.noise * 2:
                out.append("??" + TRI[c])
            else:
                out.append(c)
            if r.random() < self.noise * .4 and c != "?":
                out.append("\\\n" if r.random() < .8 else "??/\n")
        return "".join(out)

    def tok(self):
        r = self.r
        k = r.random()
        if k < .3:
            return r.choice(WORDS)
        if k < .4:
            return self.uniq()
        if k < .55:
            return r.choice(NUMS)
        if k < .63:
            return r.choice(STRS)
        if k < .68:
            return r.choice(CHRS)
        if k < .83:
            return r.choice(OPS1)
        if k < .96:
            return r.choice(OPS2)
        return r.choice(["...", "<<=", ">>=", "@", "$", "`", "\\", "##", "#", "\x80", "\xe9"])

    def pad(self, text):
        """a comment in front, so that something happens at the end of a block of 4096 characters"""
        r = self.r
        at = [i for i, c in enumerate(text) if c in "\\?/*\"'\n#" or c == "\xe9"]
        if not at:
            return text
        n = 4096 * r.choice([1, 1, 2, 3, 6, 8]) - r.choice([0, 1, 2, 3]) - r.choice(at)
        if n < 5:
            return text
        k = r.random()
        if k < .5:
            return "/*" + "x" * (n - 5) + "*/\n" + text
        ls = "\n" * (n // 40) if k < .75 else "".join("w%d %s\n" % (i, "y" * 30) for i in range(n // 50))
        return ls + "/*" + "x" * max(0, n - len(ls) - 5) + "*/\n" + text

    def case(self, name):
        main = list(self.files)[0]
        if self.r.random() < .12:
            f = self.r.choice(list(self.files))
            self.files[f] = self.pad(self.files[f])
        return dict(name=name, files=[dict(name=n, text=t) for n, t in self.files.items()], dirs=self.dirs, opts=self.opts, main=main)


def oneline(s):
    return re.sub(r"(?<!\\)\n", " ", s)


def sticky(a, b):
    """would the last token of text a and the token b run together"""
    x, y = a[-1], b[0]
    if x in " \t\n\f\v":
        return False
    al = lambda c: c.isalnum() or c == "_"
    if (al(x) or x == ".") and (al(y) or y == "."):
        return True
    if al(x) and y in "+-\"'":
        return True
    return x in "+-<>=!&|*/%^.#\\?" and y in "+-<>=&|*/%^.#?=:" or x == "\\" and y == "\n"


# ---------------------------------------------------------------- P01: conditional groups
def condprog(r):
    g = Gen(r)
    names = ["A", "B", "CC", "D_1", "E"]
    for x in r.sample(names, r.choice([0, 0, 1, 2])):
        g.opts.append(dict(k="D", s=x + r.choice(["", "=1", "=0", "=2"])))
    if r.random() < .1:
        g.opts.append(dict(k="U", s=r.choice(names)))
    hdrs = ["h%d.h" % i for i in range(r.choice([0, 0, 1, 2]))]
    bad = r.random() < .2

    def d(name, rest=""):
        a = r.choice(["", "", "", " ", "\t", "/* c */"])
        b = r.choice(["", "", "", " ", "\t"])
        return a + "#" + b + name + (g.hws() + rest if rest else "") + g.eol()

    def name():
        return r.choice(names) if r.random() < .93 else r.choice(["__LINE__", "__FILE__", "__DATE__", "__TIME__"])

    def cond():
        n = r.choice(names)
        k = r.random()
        if k < .25:
            return r.choice(["0", "1", "2", "-1", "00", "0x0", "'a'", "0L", "1u", "(0)"])
        if k < .45:
            return r.choice(["defined %s", "defined(%s)", "!defined %s", "! defined ( %s )"]) % name()
        if k < .6:
            return "%s %s %s" % (n, r.choice(["==", "!=", "<", ">", "+", "-"]), r.choice(["0", "1", "2", r.choice(names)]))
        if k < .75:
            return "defined(%s) %s defined %s" % (n, r.choice(["&&", "||"]), r.choice(names))
        return r.choice(["%s", "!%s", "(%s)", "%s && 1", "0 || %s", "1 ? %s : 0"]) % n

    def junk():
        """contents of a skipped group that must have no effect"""
        return r.choice([d("error", "no"), d("include", '"nofile.h"'), d("if", "1 +") + d("endif"), d("if", "(") + d("else") + d("endif"), d("ifdef") + d("endif"), d("if", "1/0") + d("elif", "(") + d("endif"), d("unknown", "x y"), d("define"), d("define", "1 2"),
                         d("!", "x"), d('12 "foo"'), d("undef"), d("line", "x"), d("define", "defined 1"), d("if", "defined") + d("endif"), d("ifndef", "3") + d("endif"),
                         d("else").replace("else", "elsewhere"), d("endif").replace("endif", "endiff"), "x y ( ) \"s\" 'c'\n", "A B CC\n", d("include", "<no.h>"), d("define", "__LINE__ 3"),
                         d("define", "F(a"), d("define", "F(a,a) 1"), d(""), d("pragma", "x"), d("define", "M(x) #y"), d("include"), d("warning", "no"), d("line", "0x10")])

    def skipped(depth):
        """a group inside a skipped group"""
        out = ""
        for _ in range(r.choice([0, 1, 1, 2])):
            k = r.random()
            if depth < 3 and k < .3:
                out += r.choice([d("if", r.choice(["1", "0", "1 +", "(", "x y", "1/0"])), d("ifdef", "A"), d("ifndef", "A")])
                out += skipped(depth + 1)
                for _ in range(r.choice([0, 0, 1, 2])):
                    out += d("elif", r.choice(["1", "0", "@", "(", "1/0"])) + skipped(depth + 1)
                if r.random() < .5:
                    out += d("else") + skipped(depth + 1)
                out += d("endif")
            elif k < .7:
                out += junk()
            else:
                out += g.uniq() + "\n"
        return out

    def body(depth, inhdr):
        out = ""
        for _ in range(r.choice([1, 2, 3, 4]) if depth < 2 else r.choice([0, 1, 2])):
            k = r.random()
            if k < .3:
                out += g.join([g.uniq()] + [r.choice(names + ["+", ";"]) for _ in range(r.choice([0, 0, 1, 3]))]) + g.eol()
            elif k < .42:
                n = r.choice(names)
                out += d("undef", n) + d("define", n + r.choice(["", " 0", " 1", " 2", " (1)", " A", " CC"]))
            elif k < .48:
                out += d("undef", r.choice(names))
            elif k < .55 and hdrs and not inhdr:
                out += d("include", '"%s"' % r.choice(hdrs))
            elif k < .62:
                out += d("if", "0") + skipped(0) + (d("else") + body(depth + 1, inhdr) if r.random() < .5 else "") + d("endif")
            elif depth < 4:
                out += section(depth, inhdr)
            else:
                out += g.uniq() + g.eol()
        return out

    def section(depth, inhdr):
        out = r.choice([d("if", cond()), d("if", cond()), d("ifdef", name()), d("ifndef", name())])
        out += body(depth + 1, inhdr)
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            out += d("elif", cond()) + body(depth + 1, inhdr)
        if r.random() < .2:
            # a group that has been taken, then conditions that must not matter
            out += d("elif", "1") + body(depth + 1, inhdr) + d("elif", r.choice(["1", "0", "1 +", "(1", "", "1/0", "x y", "defined"])) + skipped(0)
        if r.random() < .5:
            out += d("else") + body(depth + 1, inhdr)
        return out + d("endif")
    t = body(0, False)
    if bad:
        ls = t.splitlines(True)
        k = r.randrange(len(ls) + 1)
        ls.insert(k, r.choice([d("endif"), d("else"), d("elif", "1"), d("if", "1"), d("else") + d("else"), d("else") + d("elif", "0"), d("ifdef", "A"), d("ifdef"), d("ifdef", "A B"), d("ifndef", "1"),
                               d("!", "x"), d("error", "x"), d("if", "0") + d("else") + d("else") + d("endif"), d("if", "1") + d("else", "x") + d("endif")]))
        t = "".join(ls)
    g.files["t.c"] = g.mangle(t)
    for h in hdrs:
        s = r.choice(["once", "once", "plain", "cut" if bad else "plain"])
        t = body(1, True)
        if s == "once":
            u = h[:2].upper() + "_H"
            t = d("ifndef", u) + d("define", u) + t + d("endif")
        elif s == "cut":
            t += r.choice([d("endif"), d("else"), d("elif", "1"), d("if", "1"), d("if", "0")])
        if r.random() < .2:
            t = t.rstrip("\n")
        g.files[h] = g.mangle(t)
    return g


# ---------------------------------------------------------------- P02: macros
def macroprog(r):
    g = Gen(r)
    objs = ["OA", "OB", "OC", "x"]
    funs = {"f": 1, "g": 1, "h": 2, "k": 0, "m3": 3, "cat": 2, "str": 1, "xstr": 1, "id": 1}
    params = ["a", "b", "c"]
    defd = set()
    pasty = {"cat"}    # macros that paste arguments
    style = r.choice(["mix", "mix", "mix", "rescan", "paste", "string"])

    def use(depth, inargs=False):
        """tokens with macro uses"""
        k = r.random()
        if k < .3:
            return [r.choice(objs)]
        if k < .7 and depth > 0:
            n = r.choice(list(funs))
            j = r.random()
            if j < .08:
                return [n]
            if j < .12:
                return ["(", n, ")", "(", "1", ")"]
            na = funs[n] + (r.choice([-1, 1]) if r.random() < .004 else 0)
            out = [n] + ([r.choice([" ", "  ", "\t", "/**/"])] if r.random() < .15 else []) + ["("]
            simple = n in pasty and r.random() < .93
            for i in range(na):
                if i:
                    out.append(",")
                if simple:
                    out += r.choice([["x"], ["y1"], ["OA"], ["f"], ["2"], ["O"], ["a"], ["_"], ["B", ["+"][0]] if r.random() < .05 else ["B"], ["f", "1"], ["x", "OA"]])
                    continue
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    out += use(depth - 1, True)
                if r.random() < .1:
                    out += ["("] + use(depth - 1, True) + r.choice([[], [",", "2"]]) + [")"]
            return out + [")"]
        return [r.choice(["1", "2", "+", "-", "y", "z", "if", '"s"', "'c'", '"a\\n"', "'\\''", '"\\""', "a", "b", "3.5", "==", "[", "]", "<", "##" if r.random() < .1 else ";", "L", "0x1", "e", "."])]

    def nospace(ts):
        out = ""
        for t in ts:
            if t.strip() == "" or t == "/**/":
                out += t
                continue
            out += ((g.ws() if r.random() < .5 else " ") if sticky(out, t) or r.random() < .35 else "") if out else ""
            out += t
        return out

    def define(n, args=None):
        isf = n in funs if args is None else args >= 0
        ps = params[:funs[n] if args is None else args] if isf else []
        if ps and r.random() < .2:
            r.shuffle(ps)
        body = []
        if args is not None:
            body = r.choice([["7"], ps + ["+"], ["OA"] + ps, ["(", "y", ")"] + ps, ps[:1]])
        elif n == "cat" and ps == params[:2]:
            body = r.choice([["a", "##", "b"], ["a", "##", "b", "##", "a"], ["x", "##", "a", "b", "##", "y"], ["a", "##", "1"], ["a", "##", "b"]])
        elif n == "str" and ps == ["a"]:
            body = r.choice([["#", "a"], ["#", "a"], ["#", "a", "a"], ["[", "#", "a", "]"]])
        elif n == "xstr":
            body = ["str", "(", "a", ")"]
        elif n == "id":
            body = ["a"]
        else:
            for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
                k = r.random()
                if ps and k < .4:
                    body.append(r.choice(ps))
                elif k < .5 or (style == "rescan" and k < .75):
                    body += r.choice([[r.choice(objs)], [r.choice(list(funs))], use(1)])
                elif ps and (k < .56 or style == "string" and k < .8):
                    body += ["#", r.choice(ps)]
                elif k < .62 or style == "paste" and k < .85:
                    q = lambda: r.choice(ps + ["x", "O", "f", "y", "A", "B"] + (["+"] if r.random() < .05 else [])) if r.random() < .6 or not ps else r.choice(ps)
                    if r.random() < .3:
                        x, y = r.choice([("+", "+"), ("<", "<"), ("=", "="), ("-", ">"), ("<", "="), (".", "1"), ("1", "."), ("L", "'a'"), ("-", "="), ("/", "="), ("&", "&"), ("1e", "+")])
                        body += [x, "##", y]
                    else:
                        body += [q(), "##", q()] + (["##", q()] if r.random() < .2 else [])
                else:
                    body.append(r.choice(["1", "+", "y", "(", ")", ",", "2", '"s"', "'x'", "OA", "f", "(", ")"]) if r.random() < .5 else r.choice(["+", "-", "7", "q", ";"]))
        pasty.discard(n)
        if "##" in body and ps:
            pasty.add(n)
        if r.random() < .004:
            body = r.choice([["##", "a"], ["a", "##"], ["#", "b1"], ["#"]])
        head = n + ("(" + g.ows() + ("," if r.random() < .7 else " , ").join(ps) + g.ows().replace("\n", "") + ")" if isf else "")
        return "#define " + head.replace("\n", "") + g.hws() + oneline(nospace(body)) + g.eol()
    if r.random() < .3:
        for _ in range(r.choice([1, 2])):
            if len(g.opts) == 1 and g.opts[0]["s"][:2] != "x=":
                break
            g.opts.append(dict(k="D", s=r.choice(["OA", "OA=1", "OB=x y", "OC=f", "OB=OA", "x=", "OA=(1)", "OC=\"s\"", "OB=f(1)"])))
            defd.add(g.opts[-1]["s"][:2])
    t = ""
    chain = r.random()
    if chain < .08:
        n = r.choice([3, 10, 31, 32, 33, 40])
        k = r.random()
        for i in range(n):
            nx = "c%d" % ((i + 1) % n) if k < .8 or i < n - 1 else "end"
            t += "#define c%d %s\n" % (i, nx if k < .5 else nx + " c%d" % r.randrange(i + 1) if k < .6 and i < 6 else "(" + nx + ")" if k < .8 else nx)
        t += "c0 c%d\n" % (n - 1)
    elif chain < .14:
        # long or many tokens
        k = r.choice([0, 1, 2, 3, 4])
        n = r.choice([50, 130, 300, 1000])
        if k == 0:
            t += "#define cat(a,b) a##b\ncat(%s,%s)\n" % ("p" * n, "q" * n)
        elif k == 1:
            t += "#define str(a) #a\nstr(%s)\n" % " ".join("w%d" % i for i in range(n // 4))
        elif k == 2:
            t += "#define id(a) a\n%s1%s\n" % ("id(" * min(n, 100), ")" * min(n, 100))
        elif k == 3:
            t += "#define l __LINE__ __FILE__\n" + "l " * n + "\n"
        else:
            t += "#define big %s\nbig big\n" % " ".join("b%d" % i for i in range(n // 2))
    for n in r.sample(objs, r.choice([1, 2, 3, 4])):
        if n not in defd:
            t += define(n)
    for n in r.sample(list(funs), r.choice([3, 5, 7, 9])):
        t += define(n)
    for _ in range(r.choice([2, 4, 6])):
        k = r.random()
        if k < .12:
            n = r.choice(objs + list(funs))
            j = r.random()
            t += "#undef " + n + g.eol() + (define(n) if j < .4 else define(n, r.choice([-1, -1, 0, 1, 2])) if j < .75 else "")
            if j >= .4:
                t += "%s %s(1) %s(1,2) %s()" % (n, n, n, n) if r.random() < .2 else r.choice(["%s", "; %s +", "%s(1)", "%s(x,y)"]) % n
                t += g.eol()
        elif k < .17:
            t += r.choice(["__LINE__", "__FILE__", "__LINE__ __LINE__", "__LINE__\n__LINE__", "xstr(__LINE__)", "id(__LINE__)", "cat(x,__LINE__)", "__DATE__ __TIME__"]) + g.eol()
        elif k < .2:
            n = r.choice(objs)
            if r.random() < .5:
                t += "#undef %s\n#define %s a b\n#define %s%sa %s b\n" % (n, n, n, r.choice([" ", "  ", "\t", " /**/ "]), r.choice(["", "", " ", "/* */", "+" if r.random() < .3 else ""]))
            else:
                # the same or another function-like macro
                n = r.choice(list(funs))
                two = "#define %s(%s)%s%s\n"
                l = [n, "a,b", " ", "a + b"]
                m = list(l)
                j = r.random()
                if j < .5:
                    m[1] = r.choice(["a, b", " a,b", "a ,b ", "a/**/,b"])
                    m[2] = r.choice([" ", "  ", "\t", "/**/"])
                    m[3] = r.choice(["a + b", "a  + b", "a\t+/**/b"])
                else:
                    k = r.choice([1, 1, 3])
                    m[k] = r.choice(["b,a", "a,c", "a,b,c", "a", "x,y", ""]) if k == 1 else r.choice(["a +b", "a+ b", "a + c", "a - b", "a + b;", "a +", "a b", "b + a"])
                t += "#undef %s\n" % n + two % tuple(l) + two % tuple(m)
        elif k < .24:
            # a function-like name at the end of a line
            n = r.choice(list(funs))
            t += n + r.choice(["\n", " \n", "\n\n", "\n/* c */\n"]) + r.choice(["(1)\n", "#define NEXT 1\nNEXT\n", "x\n", "(1,2)\n", "#undef OA\nOA\n", "  (\n1)\n", "\n# if 1\ny\n# endif\n"])
        else:
            s = []
            for _ in range(r.choice([1, 2, 3])):
                s += use(r.choice([1, 2, 3]))
            x = nospace(s)
            if r.random() < .2:
                # spread over lines
                i = [j for j, c in enumerate(x) if c in "(, " and j > 0]
                if i:
                    j = r.choice(i) + 1
                    x = x[:j] + r.choice(["\n", "\n\n", " \n ", " // c\n"]) + x[j:]
            if x.startswith("#"):
                x = "; " + x
            t += "\n".join("; " + l if l.lstrip().startswith("#") else l for l in x.split("\n")) + g.eol()
    if r.random() < .02:
        t += r.choice(["f(1\n", "#define f(a\n", "#define 3\n", "#define __LINE__ 1\n", "#define h(a,a) a\n", "#undef\n", "#define defined 1\n", "#define q(a b) a\n", "#define q(a,) a\n"])
    g.files["t.c"] = g.mangle(t)
    return g


# ---------------------------------------------------------------- P03: #if expressions
PREC = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]
ALLOPS = [o for l in PREC for o in l]


CODES = {"'a'": 97, "'\\n'": 10, "'0'": 48, "'\\\\'": 92, "'\\x41'": 65, "'\\101'": 65, "'x'": 120}


class Bad(Exception):
    """no value: an error, a division by zero or beyond the range that all hosts share"""


def value(ts):
    """(unsigned, value) of the tokens of an expression without macros"""
    pos = 0
    prec = {o: i for i, l in enumerate(PREC) for o in l}

    def norm(u, v):
        if not -2**31 <= v < 2**31:
            raise Bad()
        return u, v

    def un():
        nonlocal pos
        t = ts[pos] if pos < len(ts) else ""
        pos += 1
        if t in ("-", "+", "~", "!"):
            u, v = un()
            return norm(u, {"-": -v, "+": v, "~": ~v}[t]) if t != "!" else (False, int(v == 0))
        if t == "(":
            x = ter()
            if pos >= len(ts) or ts[pos] != ")":
                raise Bad()
            pos += 1
            return x
        if t in CODES:
            return False, CODES[t]
        if t[:2] == "'\\":
            return False, int(t[3:-1], 16) if t[2] == "x" else int(t[2:-1], 8) if t[2].isdigit() else 7
        if t[:1].isdigit():
            n = t.lower().rstrip("ul")
            return norm("u" in t.lower(), int(n, 16 if n[:2] == "0x" else 8 if n[0] == "0" else 10))
        if t[:1].isalpha():
            return False, 0
        raise Bad()

    def app(o, a, b):
        u, x, y = a[0] or b[0], a[1], b[1]
        lt = (x % 2**32 if u else x) < (y % 2**32 if u else y)
        if o in ("/", "%"):
            if y == 0 or u and (x < 0 or y < 0) or (x, y) == (-2**31, -1):
                raise Bad()
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return u, q if o == "/" else x - q * y
        if o in ("<<", ">>"):
            if not 0 <= y <= 31 or x < 0:
                raise Bad()
            return norm(a[0], x << y if o == "<<" else x >> y)
        if o in "+-*":
            return norm(u, x + y if o == "+" else x - y if o == "-" else x * y)
        if o in "&|^":
            return u, x & y if o == "&" else x | y if o == "|" else x ^ y
        return False, int({"<": lt, ">": not lt and x != y, "<=": lt or x == y, ">=": not lt, "==": x == y, "!=": x != y}[o])

    def binary(m):
        nonlocal pos
        a = un()
        while pos < len(ts) and ts[pos] in prec and prec[ts[pos]] >= m:
            o = ts[pos]
            pos += 1
            b = binary(prec[o] + 1)
            a = (False, int(bool(a[1]) and bool(b[1]) if o == "&&" else bool(a[1]) or bool(b[1]))) if o in ("&&", "||") else app(o, a, b)
        return a

    def ter():
        nonlocal pos
        c = binary(0)
        if pos < len(ts) and ts[pos] == "?":
            pos += 1
            a = ter()
            if pos >= len(ts) or ts[pos] != ":":
                raise Bad()
            pos += 1
            b = ter()
            return a[0] or b[0], a[1] if c[1] else b[1]
        return c
    x = ter()
    if pos != len(ts):
        raise Bad()
    return x


def expand(ts, macros):
    """the tokens without macros"""
    for _ in range(6):
        out, i = [], 0
        while i < len(ts):
            t = ts[i]
            if t == "defined":
                i += 2 if i + 1 < len(ts) and ts[i + 1] != "(" else 4
                out.append("1")
                continue
            if t in macros:
                body = re.findall(r"'[^']*'|\w+|\S", macros[t])
                if t == "F":
                    if i + 1 >= len(ts) or ts[i + 1] != "(":
                        raise Bad()
                    d, j = 1, i + 2
                    while d and j < len(ts):
                        d += {"(": 1, ")": -1}.get(ts[j], 0)
                        j += 1
                    arg = ts[i + 2:j - 1]
                    body = [y for x in body for y in (arg if x == "x" else [x])]
                    i = j - 1
                out += body
            else:
                out.append(t)
            i += 1
        if out == ts:
            break
        ts = out
    return ts


def known(ts, macros):
    """does the expression have a value"""
    try:
        value(expand(ts, macros))
        return True
    except (Bad, IndexError, ValueError):
        return False


def exprprog(r):
    g = Gen(r)
    t = ""
    names = ["A", "B", "F"]
    macros = {}
    macros["A"] = r.choice(["1", "0", "-1", "(2)", "3", "B", "1 + 2", "0x10", "~0", "'x'"])
    t += "#define A %s\n" % macros["A"]
    if r.random() < .5:
        macros["F"] = r.choice(["x", "(x)", "x + 1", "x * x", "(x) ? 1 : 2", "A", "defd"])
        t += "#define F(x) %s\n" % macros["F"]
        hasf = True
    else:
        hasf = False
    if r.random() < .3:
        g.opts.append(dict(k="D", s=r.choice(["B", "B=0", "B=5", "B=-3", "B=A"])))
        macros["B"] = (g.opts[-1]["s"] + "=1").split("=")[1].replace("-", "- ")
    consts = ["0", "1", "2", "3", "5", "7", "10", "0x1F", "017", "1u", "0U", "2147483647", "0x7fffffff", "-1", "-2", "'a'", "'\\n'", "'0'", "'\\\\'", "'\\x41'", "'\\101'", "100", "31", "1L", "3UL", "0xFFul", "1lu", "-1u", "00"]

    def prim(d):
        k = r.random()
        if d > 0 and k < .18:
            return ["("] + ex(d - 1) + [")"]
        if k < .28:
            return [r.choice(["-", "+", "~", "!"])] + prim(d)
        if k < .36:
            n = r.choice(["A", "B", "UNDEF", "F"])
            return ["defined", n] if r.random() < .5 else ["defined", "(", n, ")"]
        if k < .43:
            return [r.choice(["A", "A", "B", "UNDEF", "int"])]
        if hasf and k < .47:
            return ["F", "("] + ex(0) + [")"]
        if r.random() < .06:
            k = r.random()
            v = r.choice([0, 1, 7, 8, 9, 10, 32, 63, 64, 65, 72, 96, 120, 127])
            return ["'\\%03o'" % v if k < .4 else "'\\%o'" % v if k < .6 else "'\\x%x'" % v if k < .8 else "'\\%s'" % r.choice("ntvbrfa\\?'\"")]
        return r.choice([[c] if c[0] != "-" else ["-", c[1:]] for c in consts])

    def ex(d):
        """a chain of operators"""
        ops = r.choice([ALLOPS, ALLOPS, ["+", "-"], ["*", "/", "%"], ["<<", ">>", "+"], ["&&", "||"], ["&", "|", "^"], ["<", ">", "<=", ">=", "==", "!="], ["/", "*", "-"]])
        out = prim(d)
        for _ in range(r.choice([0, 1, 1, 2, 3, 4]) if d else r.choice([0, 1, 2])):
            out += [r.choice(ops)] + prim(d)
        if d > 0 and r.random() < .15:
            out += ["?"] + ex(d - 1) + [":"] + ex(d - 1)
        return out
    nifs = r.choice([4, 8, 14])
    for i in range(nifs):
        e = ex(r.choice([0, 1, 1, 2, 2, 3]))
        for _ in range(8):
            if r.random() < .003 or known(e, macros):
                break
            e = ex(r.choice([0, 1, 1, 2, 2, 3]))
        k = r.random()
        if k > .55:
            # its sign, and its value
            try:
                u, v = value(expand(e, macros))
                if r.random() < .5:
                    e = ["-", "1", r.choice(["<", "<=", ">", ">="]), "("] + r.choice([["("] + e + [")", "|", "1"], ["("] + e + [")", "&", "7", "|", "2"]]) + [")"]
                else:
                    v = max(v, -2**31 + 1) + r.choice([0, 0, 1, -1])
                    e = ["("] + e + [")", r.choice(["==", "!=", "<", ">", "<=", ">="])] + ([str(v)] if 0 <= v < 2**31 else ["0"] if v >= 2**31 else ["-", str(min(-v, 2**31 - 1))])
            except (Bad, IndexError, ValueError):
                pass
        if k < .025:
            e = ["("] * 3 + e + [")"] * 3 if r.random() < .5 else ["("] * r.choice([20, 31, 33, 60]) + ["1"] + [")"] * 0
            n = e.count("(") - e.count(")")
            e += [")"] * n
        elif k < .032:
            e = ["-"] * r.choice([10, 40]) + ["1"]
            e = [x + " " for x in e]
        elif k < .04:
            e = ["1"] + ["+", "1"] * 40
        elif k < .045:
            # division by zero in or out of the evaluated part
            e = r.choice([["0", "&&"], ["1", "||"], ["0", "?"], ["1", "?", "1", ":"], ["1", "&&"], ["0", "||"], []]) + r.choice([["1", "/", "0"], ["1", "%", "0"], ["(", "5", "/", "UNDEF", ")"]])
            if "?" in e and ":" not in e:
                e += [":", r.choice(["0", "1"])]
        elif k < .1 and i == nifs - 1:
            j = r.randrange(len(e) + 1)
            e = r.choice([e[:j], e[:j] + [r.choice(["(", ")", "+", "?", ":", ",", "=", "1", '"s"', "@", "1.5", "++", "defined", "[", "0x", "''", "<", "!", "#"])] + e[j:], []])
        head = "#if " + oneline(g.join(e)) + g.eol()
        k = r.random()
        if k < .6:
            t += head + g.uniq() + "\n#else\n" + g.uniq() + "\n#endif\n"
        elif k < .8:
            t += head + g.uniq() + "\n#endif\n"
        else:
            t += "#if 0\n#elif " + head[4:] + g.uniq() + "\n#endif\n"
    g.files["t.c"] = g.mangle(t)
    return g


# ---------------------------------------------------------------- P04: text, includes, lines
def textprog(r):
    g = Gen(r)
    g.blank = r.choice([.05, .2, .5])
    main = r.choice(["t.c", "t.c", "t.c", "d/t.c", "src/main.c"])
    base = main[:main.rfind("/") + 1]
    hdrs = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        d = r.choice(["", "", "inc/", "inc2/", "sub/", "sub/deep/"])
        n = r.choice(["a.h", "b.h", "c.h", "d.h"])
        if d + n not in hdrs:
            hdrs.append(d + n)
    g.dirs = r.sample(["inc", "inc2", "sub", "none", "inc/"], r.choice([0, 0, 1, 2, 3]))
    if r.random() < .04:
        g.dirs += ["n%d" % i for i in range(r.choice([10, 20]))]

    def incl():
        if not hdrs:
            return g.uniq() + "\n"
        h = r.choice(hdrs)
        if r.random() < .45 and h.startswith(tuple(x.rstrip("/") + "/" for x in g.dirs or ["\0"])):
            h = h.split("/", 1)[1]
        elif r.random() < .04:
            h = r.choice(["none.h", "a.h", "sub/none.h"])
        return "#" + r.choice(["", " "]) + "include" + r.choice([" ", "", "  ", "\t"]) + r.choice(['"%s"', '"%s"', "<%s>"]) % h + g.eol()

    def line():
        k = r.random()
        if k < .62:
            ts = [g.tok() for _ in range(r.choice([0, 1, 2, 3, 5, 8, 14]))]
            if ts and ts[0].startswith("#"):
                ts[0] = ";"
            s = g.join(ts)
            return "\n".join("; " + l if l.lstrip().startswith("#") else l for l in s.split("\n")) + g.eol()
        if k < .72:
            return incl()
        if k < .78:
            return "#" + r.choice(["line ", "line\t", " line "]) + str(r.choice([1, 2, 5, 100, 999, 32000])) + r.choice(["", ' "foo.c"', ' "x/y.c"', ' "t.c"']) + g.eol()
        if k < .82:
            return "\n" * r.choice([1, 2, 5, 9, 11, 30])
        if k < .86:
            return r.choice(["#pragma once", "#pragma a b (c) \"s\"", "#", "# ", "#warning w", "#/* c */"]) + g.eol()
        if k < .9:
            return "/*" + "".join(r.choice("ab *\n/") for _ in range(r.choice([5, 30, 200]))).replace("*/", "* ").replace("*/", "") + " */" + r.choice(["", " x", "\n"]) + "\n"
        if k < .93:
            return g.uniq() + r.choice([" // c", "//c\\", " /* */ // /*"]).rstrip("\\") + "\n"
        if k < .96:
            return r.choice(["__FILE__", "__LINE__", "__FILE__ __LINE__ x"]) + g.eol()
        n = r.choice([100, 600, 3000])
        return r.choice(["x" * n, '"' + "s" * n + '"', "1" * n, " " * n + "y", "+ " * (n // 4), "/*" + "c" * n + "*/ z", "w" + "\\\n" * (n // 20) + "v"]) + "\n"
    t = "".join(line() for _ in range(r.choice([1, 4, 8, 14, 20])))
    if r.random() < .012:
        t += r.choice(["/* open", "/* open *", "#include\n", "#include 3\n", "#include \"\n", "#include <a.h\n", "#line\n", "#line x\n", "#line 3 4\n", "#error e\n", "#include \"none.h\"\n"])
    if r.random() < .01:
        n = r.choice([40000, 70000])
        t += r.choice(["/*" + "c" * n + "*/ after\n", "x" * 20 + " " * n + "y\n", "/*" + "c\n" * (n // 2) + "*/ after\n"])
    if r.random() < .04:
        n = r.choice([2040, 2047, 2048, 2049, 3900, 4095, 4096, 4097, 8190, 16300, 16390, 20000]) + r.choice([0, 1, 2])
        x = "".join(r.choice(["w%d " % i, "\"%d\"" % i, "+%d " % i, "%d, " % i]) for i in range(n // 4))[:n - 3]
        if x.count('"') % 2:
            x += '"'
        t = r.choice([x + "\n" + t, t + x + "\n"])
    if r.random() < .15:
        t = t.rstrip("\n")
    g.files[main] = g.mangle(t)
    for h in hdrs:
        s = ""
        for _ in range(r.choice([0, 1, 2, 4])):
            l = line()
            s += g.uniq() + "\n" if "include" in l and (r.random() < .7) else l
        if r.random() < .5:
            u = "".join(c if c.isalnum() else "_" for c in h).upper()
            s = "#ifndef %s\n#define %s\n" % (u, u) + s + "\n#endif\n"
        if r.random() < .25:
            s = s.rstrip("\n")
        g.files[r.choice([base, base, ""]) + h if not h.startswith(("inc", "sub")) or r.random() < .6 else h] = g.mangle(s)
    return g


MAKE = dict(P01=condprog, P02=macroprog, P03=exprprog, P04=textprog)
