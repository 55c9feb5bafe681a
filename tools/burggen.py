"""Random tree grammars and trees for the code-generator generator."""


def name(r, used, cap):
    while True:
        k = r.choice([1, 2, 4, 4])
        n = "".join(r.choice("ABCDEFG" if cap else "abcdefg") for _ in range(k)) + r.choice(["", "", "1", "_x", "9", "_"])
        if r.random() < 0.04:
            n += "q" * r.choice([15, 30])
        elif r.random() < 0.06:
            n = ("Long" if cap else "long") * r.choice([3, 5]) + n      # long common beginnings
        if n not in used and n not in ("do", "if"):
            used.add(n)
            return n


def tok(k, s="", n=0, **kw):
    return dict(k=k, s=s, n=n, **kw)


class Gram:
    def __init__(g, r):
        used = set()
        g.r = r
        g.terms = []
        esns = r.sample(range(0, r.choice([12, 300, 2000])), 9)
        for i in range(r.choice([2, 3, 5, 8])):
            g.terms.append([name(r, used, r.random() < 0.9), esns[i], 0 if i == 0 else r.choice([0, 1, 1, 2, 2])])
        g.nts = [name(r, used, r.random() < 0.1) for _ in range(r.choice([1, 2, 3, 4, 6]))]
        g.used = used
        g.deep = r.random() < 0.02
        g.rules = []
        g.esns = esns

    def pattern(g, d, must=None, root=False):
        """a tree: [name, kids]; `must` names a nonterminal that has to occur"""
        r = g.r
        if d == 0 or (not root and r.random() < 0.45):
            return [must or (r.choice(g.nts) if r.random() < 0.8 else r.choice([t[0] for t in g.terms if t[2] == 0])), []]
        t = r.choice(g.terms)
        if must and t[2] == 0:
            c = [x for x in g.terms if x[2]]
            if not c:
                return [must, []]
            t = r.choice(c)
        at = r.randrange(t[2]) if t[2] else 0
        return [t[0], [g.pattern(d - 1, must if i == at else None) for i in range(t[2])]]

    def cost(g, chain):
        r = g.r
        if chain or r.random() < 0.75:
            return tok("cost", "c", r.choice([0, 0, 1, 1, 1, 2, 3, 5, 10, 100, 30000, 32766, 32767, 70000] if r.random() < 0.3 else [0, 1, 1, 2, 3]), lim=0)
        if r.random() < 0.5:
            return tok("cost", "v", r.choice([0, 1, 3]), lim=0)
        return tok("cost", "lim", r.choice([0, 1, 3]), lim=r.choice([0, 3, 8]))

    def tmpl(g):
        r = g.r
        t = "".join(r.choice(["%0", "%1", "a", " ", ",", "# ", "x9", "\\n", "\\t", "'", "%c", "?"]) for _ in range(r.choice([0, 1, 2, 4])))
        return t + r.choice(["", "\\n", "\\n", "n"])

    def add(g, lhs, p):
        chain = p[0] in g.nts
        g.rules.append([lhs, p, g.tmpl(), g.cost(chain)])

    def build(g):
        r = g.r
        todo = []
        for i, nt in enumerate(g.nts):
            if i:
                todo.append((r.choice(g.nts[:i]), nt))
        for lhs, must in todo:
            g.add(lhs, [must, []] if r.random() < 0.4 else g.pattern(2, must, True))
        for nt in g.nts:
            for _ in range(r.choice([1, 1, 2, 3])):
                g.add(nt, g.pattern(r.choice([0, 1, 1, 2, 3]), None, r.random() < 0.8))
        for _ in range(r.choice([0, 2, 4])):
            g.add(r.choice(g.nts), [r.choice(g.nts), []])
        if r.random() < 0.6:
            g.add(r.choice(g.nts), [r.choice([t[0] for t in g.terms if t[2] == 0]), []])
        if r.random() < 0.1:                            # many rules with one left side
            nt = r.choice(g.nts)
            for _ in range(r.choice([7, 8, 15, 16, 17])):
                g.add(nt, g.pattern(1, None, True))
        if g.deep:
            u = [t for t in g.terms if t[2]]
            if u:
                p = [r.choice(g.nts), []]
                for _ in range(r.choice([20, 45, 60, 90])):
                    t = r.choice(u)
                    o = [[r.choice(g.nts), []]] if t[2] == 2 else []
                    p = [t[0], [p] + o if r.random() < 0.5 else o + [p]]
                g.add(r.choice(g.nts), p)
        used = set()

        def mark(p):
            used.add(p[0])
            for q in p[1]:
                mark(q)
        for x in g.rules:
            mark(x[1])
        for t in g.terms:
            if t[0] not in used:
                t[2] = 0                                # (its arity is not known: nothing is labelled below it)
        r.shuffle(g.rules)
        g.start = r.random() < 0.8 or g.rules[0][0] != g.nts[0]

    def lines(g):
        r = g.r
        out = []
        ts = list(g.terms)
        r.shuffle(ts)
        while ts:
            k = r.choice([1, 1, 2, 5])
            l = [tok("%term")]
            for t in ts[:k]:
                l += [tok("id", t[0]), tok("="), tok("int", "", t[1])]
            ts = ts[k:]
            out.append(l)
            if r.random() < 0.1:
                out.append([])
        if r.random() < 0.05:
            out.append([tok("%term")])
        if g.start:
            for _ in range(r.choice([1, 1, 1, 2])):
                out.insert(r.randrange(len(out) + 1), [tok("%start"), tok("id", g.nts[0])])
        out.append([tok("%%")])
        for lhs, p, t, c in g.rules:
            l = [tok("id", lhs), tok(":")]

            def tr(p):
                l.append(tok("id", p[0]))
                if p[1]:
                    l.append(tok("("))
                    for i, q in enumerate(p[1]):
                        if i:
                            l.append(tok(","))
                        tr(q)
                    l.append(tok(")"))
            tr(p)
            out.append(l + [tok("tmpl", t), c])
            if r.random() < 0.06:
                out.append([])
        return out

    def tree(g):
        """nodes: [op, v, left, right], children first"""
        r = g.r
        by = {t[0]: t for t in g.terms}
        nodes = []
        leaves = [t for t in g.terms if t[2] == 0]

        def put(t, kids):
            nodes.append([t[1], r.choice([0, 1, 2, 3, 5, 9, 15]), *(kids + [0, 0])[:2]])
            return len(nodes)

        def rand(d):
            t = r.choice(g.terms if d > 0 and len(nodes) < 25 else leaves)
            return put(t, [rand(d - 1) for _ in range(t[2])])

        def derive(nt, d):
            c = [x for x in g.rules if x[0] == nt]
            if d <= 0 or r.random() < 0.06:
                return rand(1)
            return inst(r.choice(c)[1], d)

        def inst(p, d):
            if p[0] in by:
                return put(by[p[0]], [inst(q, d) for q in p[1]])
            return derive(p[0], d - 1 if len(nodes) < 20 else 0)
        if r.random() < 0.2:
            rand(r.choice([0, 1, 3]))
        else:
            derive(r.choice(g.nts), r.choice([2, 3, 5]))
        return nodes


def mutate(r, g, lines):
    lines = [list(l) for l in lines]
    ids = [t["s"] for l in lines for t in l if t["k"] == "id"]
    div = next(i for i, l in enumerate(lines) if l and l[0]["k"] == "%%")
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.random()
        while True:
            i = r.randrange(len(lines))
            if i != div:
                break
        l = lines[i]
        # the tokens in front of a template can be disturbed
        n = next((j for j, t in enumerate(l) if t["k"] in ("tmpl", "open")), len(l))
        new = lambda: r.choice([tok("id", r.choice(ids)), tok("id", r.choice(ids)), tok("id", "zz"), tok("int", "", r.choice([1, 5, 77, 0])), tok("big"), tok("("), tok(")"), tok(","),
                                tok(":"), tok("="), tok("%term"), tok("%start"), tok("bad", r.choice("@$;-.!'")), tok("bad", "\x01"), tok("bad", "%")])
        if k < 0.2 and n:
            del l[r.randrange(n)]
        elif k < 0.4:
            l.insert(r.randrange(n + 1), new())
        elif k < 0.55 and n:
            l[r.randrange(n)] = new()
        elif k < 0.7 and n:
            j = [j for j in range(n) if l[j]["k"] == "id"]
            if j:
                l[r.choice(j)] = tok("id", r.choice(ids + ["zz"]))
        elif k < 0.75 and n > 1:
            a, b = r.randrange(n), r.randrange(n)
            l[a], l[b] = l[b], l[a]
        elif k < 0.8 and n < len(l):
            if r.random() < 0.5:
                l[n] = tok("open", l[n]["s"])
                del l[n + 1:]
                l.append(tok("cost", "c", 0, lim=0))
            else:
                del l[n:]
        elif k < 0.85 and n < len(l):
            l[-1] = g.cost(False)
        elif k < 0.9:
            if l and l[0]["k"] == "id":
                del lines[i]
                if i < div:
                    div -= 1
        elif k < 0.95:                                  # an external symbol number given twice, often the smallest or the largest
            es = [t for x in lines[:div] if x and x[0]["k"] == "%term" for t in x if t["k"] == "int"]
            if len(es) > 1:
                vs = sorted(t["n"] for t in es)
                r.choice(es)["n"] = r.choice([vs[0], vs[-1], r.choice(vs)])
        else:
            lines.insert(i, [dict(t) for t in l])
            if i < div:
                div += 1
    return lines


def render(r, g, lines, pfx, traced, tail, harness):
    """text, and the line number of each token line"""
    out, where = [], {}
    sp = lambda: r.choice(["", "", " ", "  ", "\t", " \f "])
    extra = []

    def conf(body):
        out.append("%{")
        out.extend(body)
        out.append("%}")
    conf((["#define PFX %s" % pfx] + (["#define TRACED 1"] if traced else []) + ['#include "%s/burg.h"' % harness]) if tail else ["int x;"])
    for i, l in enumerate(lines):
        if r.random() < 0.04 and out[-1] != "%}":
            extra.append("extra%d" % i)
            conf(["static int extra%d = %d;" % (i, i), "", "/* %% %term A=1", "%term Z=1", "%%", "%}", "%} */"][:r.choice([1, 2])] + r.choice([[], ["/*", "%term A=1", "%%", "%{", "%} x", "*/"]]))
        s, prev = sp(), ""
        if s and l and l[0]["k"] == "%%":
            s = ""
        for t in l:
            k = t["k"]
            x = (t["s"] if k in ("id", "bad") else str(t["n"]) if k == "int" else r.choice(["2147483648", "99999999999"]) if k == "big" else '"%s"' % t["s"] if k == "tmpl" else
                 '"' + t["s"] if k == "open" else "" if k == "cost" else k)
            if k == "cost" and prev != "open":
                n = t["n"]
                x = sp() + (r.choice([str(n), "%d" % n] + (["", "00"] if n == 0 else [])) if t["s"] == "c" else r.choice(["a->v + %d", "(a->v)+%d", "a->v+%d", "%d + a->v", "%d+(a->v)"]) % n if t["s"] == "v" else
                            r.choice(["a->v > %d ? 32767 : %d", "%d<a->v?32767:%d", "%d < a->v ? (32767) : (%d)"]) % (t["lim"], n)) + sp()
            elif prev in ("id", "int", "big", "%term", "%start", "bad") and k in ("id", "int", "big", "%term", "%start", "bad") or k == "bad" and x == "%":
                s += r.choice([" ", "\t", "  "])
            else:
                s += sp() if k != "cost" else ""
            if k in ("%term", "%start"):
                x += r.choice([" ", "\t"])
            if k == "bad" and x == "%":
                x += " "
            s += x
            prev = k
        out.append(s)
        where[len(out)] = i + 1
    if tail:
        out.append("%%")
        out += ["static int *extras[] = { 0%s };" % "".join(", &" + e for e in extra), '#include "%s/burgmain.h"' % harness]
    t = "\n".join(out) + "\n"
    return t, where
