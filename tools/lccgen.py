"""Programs for the checks of the compiler."""
from cgen import *
from ctext import Text

W = dict(L01=dict(flt=0, agg=0, ptr=0, call=0, ctl=1, bits=0),
         L02=dict(ctl=1, call=1),
         L03=dict(agg=1, ptr=1, bits=1, str=1),
         L04=dict(agg=1, ptr=1, call=1, flt=1, va=1),
         L05=dict(agg=1, ptr=1, call=1, bits=1, static=1, flt=1),
         L06=dict(flt=1, call=1, agg=1))


SELFREC = [False]       # set by L09: every other program has a recursive function without parameters


def countdown(p, r):
    """int f(void) { if (n <= 0) return k; n--; f(); .. return n; } with a global n"""
    v = p.var(INT, "global")
    v.locked = True
    v.ini = p.N("num", v=r.choice([1, 2, 3, 4]), t=INT)
    f = p.newfun("f_down", INT, [])
    R = lambda: p.ref(v)
    num = lambda k: p.N("num", v=k, t=INT)
    call = lambda: p.N("call", a=p.N("fun", v=f.id, t=p.fun(f)), l=[])
    ss = [p.N("if", a=p.N("<=", a=R(), b=num(0)), b=p.N("ret", a=num(r.randrange(100)))), p.N("expr", a=p.N(r.choice(["--p", "p--"]), a=R()))]
    for _ in range(r.choice([1, 1, 2])):
        ss.append(p.N("expr", a=p.N("out", a=call(), v=INT) if r.random() < .5 else call()))
    ss.append(p.N("ret", a=R()))
    f.body = p.block(ss)
    f.eff = Eff([v.id], [v.id], True, True, 60)
    f.done = True
    return f


def randprog(r, name, w, nglob=(2, 6), nfun=(0, 0), nst=(5, 10), depth=2, files=1, recs=(0, 0), enums=(0, 1), knr=0, dump=True, args=True):
    p = Prog(r, name, w, files)
    main = p.newfun("vmMain", INT, [])
    main.file = 0
    for _ in range(r.randint(*enums)):
        p.newenum()
    for _ in range(r.randint(*recs)):
        p.newrecord(r.choice([0, 1, 2]), noshort=r.random() < .5)
    globs = []
    for _ in range(r.randint(*nglob)):
        t = p.objtype()
        v = p.var(t, "global")
        if not p.hasshort(t) and r.random() < .7:
            v.ini = p.cinit(t)
        globs.append(v)
    if p.w["static"]:
        gpointers(p, r)
    for i in range(r.randint(*nfun)):
        scal = lambda: p.scalar() if not (p.w["flt"] and r.random() < .3) else FLOAT
        recs_ = [i + 1 for i, q in enumerate(p.types) if q["k"] in ("rec", "uni")]
        pts = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])):
            k = r.random()
            if p.w["ptr"] and k < .25:
                pts.append(p.ptr(r.choice([INT, CHAR, UINT] + recs_)))
            elif p.w["agg"] and recs_ and k < .4:
                pts.append(r.choice(recs_))
            else:
                pts.append(scal())
        k = r.random()
        ret = VOID if k < .15 else r.choice(recs_) if recs_ and k < .35 and any(v.kind == "global" and p.has(v.t, "x") for v in p.vars) is not None else scal()
        if p.kind(ret) in ("rec", "uni") and not any(p.has(v.t, ret) for v in globs):
            v = p.var(ret, "global")
            globs.append(v)
        kw = {}
        if knr and r.random() < .25 and all(p.kind(t) in ("int", "ptr") for t in pts):
            kw["knr"] = True
        elif p.w["va"] and r.random() < .2:
            pts = [t for t in pts if p.kind(t) in ("int",)][:2] + [INT]
            kw["va"] = True
        elif p.w["call"] and r.random() < .25:
            pts = [INT] + [t for t in pts if p.kind(t) != "ptr"]
            kw["depth"] = True
        f = p.newfun("f%d" % i, ret, pts, **kw)
        p.function(f, nstmt=r.randint(1, 4), d=r.choice([0, 1, depth]))
        if f.eff.cost > 4000:
            f.done = f.done
    if args:
        main.ptypes = [r.choice([INT, INT, UINT, LONG])] * 1 + [r.choice([INT, UINT]) for _ in range(r.choice([0, 0, 1, 2, 5, 11]))]
        main.tgts = [0] * len(main.ptypes)
        p.args = [s32(r.choice(BOUND)) if r.random() < .5 else r.randrange(-9, 30) for _ in main.ptypes]
    down = countdown(p, r) if SELFREC[0] and r.random() < .5 else None
    p.function(main, nstmt=r.randint(*nst), d=depth)
    if down:
        b = p.nd(main.body)
        main.body = p.N("blk", l=b["l"][:-1] + [p.N("expr", a=p.N("out", a=p.N("call", a=p.N("fun", v=down.id, t=p.fun(down)), l=[]), v=INT))] + [b["l"][-1]])
    if dump:
        b = p.nd(main.body)
        p.fn = main
        p.scope = [v for v in p.vars if v.kind == "global"]
        save = p.nd(b["l"][-1])
        main.body = p.N("blk", l=b["l"][:-1] + p.dump() + [b["l"][-1]])
        p.fn = None
    p.finish()
    return p


def gpointers(p, r):
    """global pointers with addresses as initial values, tables of functions are added by the caller"""
    for _ in range(r.choice([0, 1, 2, 3])):
        p.scope = [v for v in p.vars if v.kind == "global" and not p.kind(v.t) == "ptr"]
        recs_ = [i + 1 for i, q in enumerate(p.types) if q["k"] in ("rec", "uni")]
        to = r.choice([INT, UINT, CHAR, UCHAR, FLOAT] + recs_)
        room = r.choice([1, 1, 2])
        x = p.addr(to, room, ro=True)
        if x is None:
            continue
        v = p.var(p.ptr(to), "global")
        v.room, v.tgt, v.ro, v.ini, v.locked = room, x.obj, x.ro, x.n, False
        if p.files > 1:
            for o in x.obj:
                if p.vars[o - 1].kind == "global":
                    v.file = p.vars[o - 1].file if r.random() < .5 else v.file
    p.scope = []


def exprprog(r, name, w, n=25):
    """many expressions over globals and locals of all integer types"""
    p = Prog(r, name, w)
    main = p.newfun("vmMain", INT, [INT, INT])
    p.args = [s32(r.choice(BOUND)), s32(r.choice(BOUND))]
    if r.random() < .4:
        p.newenum()
    for t in r.sample(INTS, 4) + ([FLOAT, DOUBLE] if w.get("flt") else []):
        v = p.var(t, "global")
        if t not in (SHORT, USHORT):
            v.ini = p.cinit(t)
    p.fn = main
    p.fe = Eff()
    p.loopdepth, p.contok, p.exits, p.mult = 0, False, [], 1
    p.scope = list(p.vars)
    for t in main.ptypes:
        v = p.var(t, "param")
        main.params.append(v)
        p.scope.append(v)
    decls = []
    p.counters = [p.var(INT, "auto")]
    decls.append(p.N("decl", v=p.counters[0].id, a=p.num(0).n))
    for t in r.sample(INTS, 5) + ([FLOAT] if w.get("flt") else []):
        v = p.var(t, "auto")
        decls.append(p.N("decl", v=v.id, a=(p.num() if p.kind(t) == "int" else p.fnum()).n))
        p.scope.append(v)
    ss = []
    for _ in range(n):
        x = p.aexpr(r.choice([1, 2, 3, 3, 4])) if w.get("flt") else p.iexpr(r.choice([1, 2, 3, 3, 4]))
        ss.append(p.N("expr", a=p.out(0, x).n))
        if r.random() < .3:
            y = p.assign("flt" if w.get("flt") and r.random() < .5 else "int", 3, True)
            if y:
                ss.append(p.N("expr", a=y.n))
    ss += p.dump()
    ss.append(p.N("ret", a=p.iexpr(2).n))
    main.body = p.block(ss, decls)
    main.done = True
    p.finish()
    return p


def gridprog(r, name, ops, types, n=14, flt=False):
    """every operator on typed operands, as constants and as variables"""
    p = Prog(r, name, dict(flt=int(flt)))
    main = p.newfun("vmMain", INT, [INT])
    p.args = [r.choice(BOUND)]
    p.fn = main
    v0 = p.var(INT, "param")
    main.params.append(v0)
    decls, ss = [], []
    vs = {}
    for t in set(types):
        for k in "ab":
            v = p.var(t, r.choice(["auto", "global"]))
            vs[t, k] = v
            if v.kind == "auto":
                decls.append(p.N("decl", v=v.id, a=p.num(0).n if p.kind(t) == "int" else p.fnum(0.0).n))

    def const(t, val):
        if p.kind(t) == "flt":
            x = p.fnum(val)
            return x.n if t == FLOAT else p.N("cast", t=t, a=x.n)
        if t == INT:
            return p.num(val, INT).n
        if t == UINT and r.random() < .7:
            return p.num(val, UINT).n
        return p.N("cast", t=t, a=p.num(val, INT).n)

    def value(t, op, right):
        if p.kind(t) == "flt":
            return p.r.choice([0.0, 1.0, -1.0, 0.1, 3.0, 1e10, -2.5, 16777217.0, 1e-40, 3e38, 0.5, 7.0, -1e-20, 255.5, 1e30, 123456.789, 33554431.0])
        if right and op in ("<<", ">>"):
            return r.choice([0, 1, 2, 7, 8, 15, 16, 24, 30, 31])
        v = r.choice(BOUND) if r.random() < .75 else r.randrange(-100, 100)
        if right and op in "/%":
            v = v or 3
            x = p.T(t)
            m = (1 << (8 * x["sz"])) - 1
            if not v & m:
                v = 7
        return v
    for _ in range(n):
        op = r.choice(ops)
        ta, tb = r.choice(types), r.choice(types)
        if p.kind(ta) == "flt" or p.kind(tb) == "flt":
            if op in ("%", "&", "|", "^", "<<", ">>"):
                op = r.choice(["+", "-", "*", "/", "<", "=="])
        x, y = value(ta, op, False), value(tb, op, True)
        a, b = vs[ta, "a"], vs[tb, "b"]
        ss.append(p.N("expr", a=p.N("=", a=p.N("var", v=a.id), b=const(ta, x))))
        ss.append(p.N("expr", a=p.N("=", a=p.N("var", v=b.id), b=const(tb, y))))
        A = lambda: X(p.N("var", v=a.id), ta, Eff())
        B = lambda: X(p.N("var", v=b.id), tb, Eff())
        CA = lambda: X(const(ta, x), ta, Eff())
        CB = lambda: X(const(tb, y), tb, Eff())
        for l, q in ((CA, CB), (A, CB), (CA, B), (A, B)):
            u, w = l(), q()
            if op in ("u-", "u+", "u~", "u!", "cast", "&&", "||", "?:"):
                if op == "cast":
                    t = r.choice(types + INTS)
                    z = X(p.N("cast", t=t, a=u.n), t, Eff())
                elif op == "?:":
                    z = X(p.N("?:", a=p.N("<", a=u.n, b=w.n), b=l().n, c=q().n), p.usual(u, w), Eff())
                elif op in ("&&", "||"):
                    z = X(p.N(op, a=u.n, b=w.n), INT, Eff())
                else:
                    k = {"u-": "neg", "u+": "plus", "u~": "bnot", "u!": "not"}[op]
                    if k == "bnot" and p.kind(ta) == "flt":
                        k = "neg"
                    z = X(p.N(k, a=u.n), INT if k == "not" else p.pt(u), Eff())
            elif op in ("<", ">", "<=", ">=", "==", "!="):
                z = X(p.N(op, a=u.n, b=w.n), INT, Eff())
            elif op in ("<<", ">>"):
                z = X(p.N(op, a=u.n, b=w.n), p.pt(u), Eff())
            else:
                z = X(p.N(op, a=u.n, b=w.n), p.usual(u, w), Eff())
            if r.random() < .1:
                s = p.N("if", a=z.n, b=p.N("expr", a=p.N("out", a=p.num(1).n, v=INT)), c=p.N("expr", a=p.N("out", a=p.num(2).n, v=INT)))
                ss.append(s)
            else:
                ss.append(p.N("expr", a=p.out(0, z).n))
            if r.random() < .25 and op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"):
                ss.append(p.N("expr", a=p.out(0, X(p.N("op=", o=op, a=p.N("var", v=a.id), b=q().n), ta, Eff())).n))
                ss.append(p.N("expr", a=p.N("=", a=p.N("var", v=a.id), b=const(ta, x))))
    ss.append(p.N("ret", a=p.num(7).n))
    main.body = p.block(ss, decls)
    main.done = True
    p.finish()
    return p


def switchprog(r, name):
    """one switch, entered with every value near its cases"""
    p = Prog(r, name, dict())
    main = p.newfun("vmMain", INT, [INT])
    p.args = [r.randrange(9)]
    t = r.choice([INT, INT, INT, UINT, CHAR, UCHAR, SHORT, LONG])
    f = p.newfun("f", INT, [t])
    p.fn = f
    p.fe = Eff()
    p.loopdepth, p.contok, p.exits, p.mult = 0, False, [], 1
    v = p.var(t, "param")
    f.params.append(v)
    p.scope = [v]
    p.counters = []
    k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 16, 25, 40])
    s = p.switch(0, k, X(p.N("var", v=v.id), t, Eff()))
    f.body = p.block([s, p.N("ret", a=p.num(1).n)])
    vals = [x["v"] for x in p.nodes if x["k"] == "case"]
    f.done = True
    probe = sorted({s32(x + d) for x in vals for d in (-1, 0, 1)} | {0, -1, 2147483647, -2147483648, 128, 255, 256})
    if len(probe) > 50:
        probe = r.sample(probe, 50)
    p.fn = main
    v0 = p.var(INT, "param")
    main.params.append(v0)
    g = p.var(p.array(INT, len(probe)), "global")
    g.ini = p.N("ilist", l=[p.num(x).n for x in probe])
    i = p.var(INT, "auto")
    R = lambda: p.N("var", v=i.id)
    call = p.N("call", a=p.N("fun", v=2, t=p.fun(f)), l=[p.N("ix", a=p.N("var", v=g.id), b=R())])
    lp = p.N("for", a=p.N("=", a=R(), b=p.num(0, INT).n), b=p.N("<", a=R(), b=p.num(len(probe), INT).n), c=p.N("p++", a=R()),
             d=p.block([p.N("expr", a=p.N("out", a=p.num(-7777, INT).n, v=INT)), p.N("expr", a=call)]))
    main.body = p.block([lp, p.N("ret", a=p.num(0, INT).n)], [p.N("decl", v=i.id)])
    p.fn = None
    p.finish()
    return p


CONSTS = [0, 0, 1, 1, -1, 2, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, -128, 255, 256, 1000, 32767, 32768, -32768, 65535, 65536, 1 << 20, 0x7fffffff, -2147483647,
          -2147483648, -2, -3, -4, -8, -16, 0x55555555, 0x12345678]
FCONSTS = [0.0, 0.0, -0.0, 1.0, 1.0, -1.0, 2.0, 0.5, 4.0, 0.25, 3.0, 10.0, 0.1, -2.0, 8.0, 7.0, 65536.0, 1e10, 1e-10, 1.0 / 3, 16777216.0, 1e38, 1e-38, -0.5, 5.0, 6.0, 9.0]


def peepprog(r, name, flt=False):
    """expressions that mix a few constants with variables, for many values of the variables"""
    p = Prog(r, name, dict(flt=int(flt)))
    main = p.newfun("vmMain", INT, [INT])
    p.args = [r.choice(BOUND)]
    p.fn = main
    p.fe = Eff()
    v0 = p.var(INT, "param")
    main.params.append(v0)
    i = p.var(INT, "auto")
    I_ = lambda: p.N("var", v=i.id)
    n = r.choice([8, 12, 16])

    def cnum(t):
        if p.kind(t) == "flt":
            return X(p.fnum(r.choice(FCONSTS)).n, FLOAT, Eff())
        v = r.choice(CONSTS)
        if r.random() < .3:
            return X(p.num(v, UINT).n, UINT, Eff())
        return X(p.num(v, INT).n, INT, Eff())
    ts = [r.choice([INT, INT, UINT, UINT] + INTS) for _ in range(2)]
    if flt:
        ts = [FLOAT, r.choice([FLOAT, FLOAT, INT, UINT, CHAR, DOUBLE])]
    vs, ini, decls = [], [], [p.N("decl", v=i.id)]
    for k, t in enumerate(ts):
        f = p.kind(t) == "flt"
        et = FLOAT if f else INT
        g = p.var(p.array(et, n), "global")
        if f:
            g.ini = p.N("ilist", l=[p.fnum(r.choice(FCONSTS)).n if r.random() < .8 else p.fnum().n for _ in range(n)])
        else:
            g.ini = p.N("ilist", l=[p.num(r.choice(CONSTS) if r.random() < .8 else s32(r.getrandbits(32))).n for _ in range(n)])
        v = p.var(t, r.choice(["auto", "auto", "global"]))
        if v.kind == "auto":
            decls.append(p.N("decl", v=v.id, a=p.N("num", v=0, t=INT)))
        vs.append(v)
        ini.append(p.N("expr", a=p.N("=", a=p.N("var", v=v.id), b=p.N("ix", a=p.N("var", v=g.id), b=I_()))))

    same = {}
    if r.random() < .5:
        for q in set(ts):
            f = p.newfun("same%d" % q, q, [q])
            p.fn = f
            z = p.var(q, "param")
            f.params.append(z)
            f.body = p.block([p.N("ret", a=p.N("var", v=z.id))])
            f.done = True
            p.fn = main
            same[q] = f

    def leaf(c):
        if c:
            return cnum(r.choice(ts))
        v = vs[0] if r.random() < .7 else vs[1]
        x = p.N("var", v=v.id)
        if v.t in same and r.random() < .2:
            f = same[v.t]
            x = p.N("call", a=p.N("fun", v=f.id, t=p.fun(f)), l=[x])
        return X(x, v.t, Eff())

    def tree(d):
        if d == 0:
            return leaf(False)
        a = tree(d - 1)
        b = leaf(r.random() < .75) if d == 1 or r.random() < .75 else tree(r.randrange(d))
        fl = lambda x: p.kind(x.t) == "flt"
        k = r.random()
        if k < .1:
            o = r.choice(["neg", "not", "plus"] + ([] if fl(a) else ["bnot"]))
            return X(p.N(o, a=a.n), INT if o == "not" else p.pt(a), Eff())
        if k < .17:
            t = r.choice([CHAR, UCHAR, SHORT, USHORT, INT, UINT, INT, UINT, FLOAT] if flt else INTS)
            if not (fl(a) and r.random() < .5):
                return X(p.N("cast", t=t, a=a.n), t, Eff())
        if p.nd(a.n)["k"] in ("<<", ">>", "&", "|", "+", "-", "*", "/") and p.nd(p.nd(a.n)["b"])["k"] == "num" and r.random() < .35 and not fl(a):
            # a second constant operand of the same operator, or of a related one
            o = p.nd(a.n)["k"]
            op = r.choice([o, o, o, {"<<": ">>", ">>": "<<", "&": "|", "|": "&", "+": "-", "-": "+", "*": "/", "/": "*"}[o]])
            b = cnum(r.choice([q for q in ts if p.kind(q) != "flt"] or [INT]))
        else:
            op = r.choice(ARITH + ARITH + COMP + ["&&", "||"]) if not flt else r.choice(["+", "-", "*", "/"] * 3 + COMP + COMP + ["&&"])
        if (fl(a) or fl(b)) and op in ("%", "&", "|", "^", "<<", ">>"):
            op = "*"
        if op in ("<<", ">>"):
            b = X(p.num(r.choice([0, 1, 2, 3, 4, 7, 8, 12, 15, 16, 20, 24, 28, 30, 31]), INT).n, INT, Eff()) if r.random() < .8 else \
                X(p.N("&", a=b.n, b=p.num(31, INT).n), p.pt(b), Eff()) if not fl(b) else b
            return X(p.N(op, a=a.n, b=b.n), p.pt(a), Eff())
        if op in ("/", "%") and not (fl(a) or fl(b)):
            # a nonzero divisor
            if p.nd(b.n)["k"] == "num":
                v = p.nd(b.n)["v"] or 3
                if r.random() < .3:
                    v = r.choice([1, 2, 4, 8, 256, 65536, 1 << 30, -2147483648, -1, -2])
                b = X(p.num(v, b.t).n, b.t, Eff())
            else:
                b = X(p.N("|", a=b.n, b=p.num(1, INT).n), p.usual(b, p.num(1, INT)), Eff())
        elif op not in ("/", "%", "-") and r.random() < .35 or op in ("/", "-") and r.random() < .3 and (fl(a) or fl(b) or op == "-"):
            a, b = b, a
        t = INT if op in COMP + ["&&", "||"] else p.usual(a, b)
        return X(p.N(op, a=a.n, b=b.n), t, Eff())
    ss = []
    for _ in range(r.choice([6, 9, 12])):
        x = tree(r.choice([1, 1, 2, 2, 2, 3]))
        if r.random() < .15:
            ss.append(p.N("if", a=x.n, b=p.N("expr", a=p.N("out", a=p.num(1).n, v=INT)), c=p.N("expr", a=p.N("out", a=p.num(2).n, v=INT)) if r.random() < .5 else 0))
        else:
            ss.append(p.N("expr", a=p.out(0, x).n))
    lp = p.N("for", a=p.N("=", a=I_(), b=p.num(0, INT).n), b=p.N("<", a=I_(), b=p.num(n, INT).n), c=p.N("p++", a=I_()), d=p.block(ini + ss))
    main.body = p.block([lp, p.N("ret", a=p.num(0, INT).n)], decls)
    main.done = True
    p.finish()
    return p


def stringprog(r, name):
    """many string literals that differ little"""
    p = Prog(r, name, dict())
    main = p.newfun("vmMain", INT, [INT])
    p.args = [r.randrange(9)]
    p.fn = main
    v0 = p.var(INT, "param")
    main.params.append(v0)
    i, j = p.var(INT, "auto"), p.var(INT, "auto")
    pre = [r.choice([0, 0, 97, 92, 34, 10, 255]) for _ in range(r.choice([0, 1, 3]))]
    m = len(pre) + 3
    n = r.choice([20, 60, 110])
    lits = []
    for _ in range(n):
        b = pre + [r.randrange(97, 123), r.randrange(97, 123), r.choice([0, 98])]
        if r.random() < .1:
            b = [r.choice([0, 65, 200]) for _ in range(m)]
        if lits and r.random() < .1:
            b = list(r.choice(lits))
        lits.append(b)
    t = p.ptr(CHAR)
    g = p.var(p.array(t, n), "global")
    g.ini = p.N("ilist", l=[p.N("str", v=p.strlit(b).id) for b in lits])
    R = lambda v: p.N("var", v=v.id)
    N0 = lambda k: p.num(k, INT).n
    body = p.N("expr", a=p.N("out", a=p.N("ix", a=p.N("ix", a=R(g), b=R(i)), b=R(j)), v=INT))
    inner = p.N("for", a=p.N("=", a=R(j), b=N0(0)), b=p.N("<", a=R(j), b=N0(m + 1)), c=p.N("p++", a=R(j)), d=body)
    lp = p.N("for", a=p.N("=", a=R(i), b=N0(0)), b=p.N("<", a=R(i), b=N0(n)), c=p.N("p++", a=R(i)), d=inner)
    main.body = p.block([lp, p.N("ret", a=N0(0))], [p.N("decl", v=i.id), p.N("decl", v=j.id)])
    p.fn = None
    p.finish()
    return p


ARITH = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]
COMP = ["<", ">", "<=", ">=", "==", "!="]


def programs(pid, r, n):
    w = W[pid]
    out = []
    for k in range(n):
        nm = "%s-%d" % (pid, k)
        f = r.random()
        if pid == "L01":
            if f < .3:
                p = peepprog(r, nm)
            elif f < .55:
                p = gridprog(r, nm, ARITH + COMP + ["u-", "u~", "u!", "u+", "cast", "&&", "||", "?:"], r.sample(INTS, 3))
            elif f < .82:
                p = exprprog(r, nm, w)
            else:
                p = randprog(r, nm, dict(w, bits=1, agg=1), recs=(1, 2))
        elif pid == "L02":
            p = switchprog(r, nm) if f < .3 else randprog(r, nm, w, nfun=(0, 2), nst=(4, 9), depth=r.choice([2, 3, 4]))
        elif pid == "L03":
            p = randprog(r, nm, dict(w), recs=(1, 4), nglob=(3, 7), nst=(6, 14), depth=1, enums=(0, 1))
        elif pid == "L04":
            p = randprog(r, nm, w, recs=(0, 2), nfun=(2, 5), nst=(5, 9), depth=1, knr=1)
        elif pid == "L05" and f < .05:
            p = stringprog(r, nm)
        elif pid == "L05":
            p = randprog(r, nm, w, recs=(1, 3), nglob=(5, 12), nfun=(1, 4), nst=(2, 5), depth=1, files=r.choice([1, 2, 3, 4]), enums=(0, 2))
        else:
            if f < .3:
                p = peepprog(r, nm, True)
            elif f < .55:
                p = gridprog(r, nm, ARITH[:4] + COMP + ["u-", "u!", "u+", "cast", "cast", "&&", "?:"], [FLOAT, FLOAT, r.choice(INTS), DOUBLE], flt=True)
            elif f < .8:
                p = exprprog(r, nm, dict(w, call=0))
            else:
                p = randprog(r, nm, w, recs=(0, 1), nfun=(1, 3), nst=(5, 9), depth=2)
        out.append(p)
    return out
