"""Generated inputs for the assembler checks."""
import random, re

OPS0 = ("BREAK ASGNF4 ASGNI4 ASGNP4 ASGNU4 ASGNI2 ASGNU2 ASGNI1 ASGNU1 INDIRF4 INDIRI4 INDIRP4 INDIRU4 INDIRI2 INDIRU2 INDIRI1 INDIRU1 "
        "NEGF4 NEGI4 ADDF4 ADDI4 ADDP4 ADDP ADDU4 SUBF4 SUBI4 SUBP4 SUBU4 LSHI4 LSHU4 MODI4 MODU4 RSHI4 RSHU4 BANDI4 BANDU4 BCOMI4 "
        "BCOMU4 BORI4 BORU4 BXORI4 BXORU4 DIVF4 DIVI4 DIVU4 MULF4 MULI4 MULU4 JUMPV").split()
CONST = "CNSTF4 CNSTI4 CNSTP4 CNSTU4 CNSTI2 CNSTU2 CNSTI1 CNSTU1 ADDRGP4".split()
BR = ["%s%s4" % (a, b) for a in ("EQ", "NE") for b in "FIU"] + ["%s%s4" % (a, b) for a in ("GE", "GT", "LE", "LT") for b in "FIU"]
IGN = ["INDIRB", "CVII1 4", "CVII2 4", "CVIU4 4", "CVPU4 4", "CVUI4 4", "CVUP4 4", "CVUU4 4", "CVUU1 4", "CVUU2 4"]
CONV = ["CVII4 1", "CVII4 2", "CVIF4 4", "CVFI4 4"]
NUMS = [0, 1, -1, 2, 3, 4, 7, 8, 127, 128, 255, 256, -128, 32767, 32768, 65535, 65536, 2147483647, -2147483648, 2147483648, 4294967295,
        305419896, -2023406815, 3735928559]


class Gen:
    def __init__(self, r):
        self.r = r

    def num(self):
        r = self.r
        return r.choice(NUMS) if r.random() < .6 else r.randrange(-2**31, 2**32)

    def small(self):
        return self.r.choice([0, 1, 2, 3, 4, 8, 12, 100, 255, 256, 1000])

    def names(self, k, pre="g"):
        r = self.r
        out = []
        alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
        while len(out) < k:
            n = r.choice([pre + str(len(out)), r.choice(alpha) + "".join(r.choice(alpha + "0123456789") for _ in range(r.randrange(0, 12)))])
            if r.random() < .05:
                n = n + "x" * r.randrange(60, 200)
            if n not in out and n not in ("code",):
                out.append(n)
        return out

    def expr(self, syms):
        r = self.r
        if not syms or r.random() < .2:
            e = str(self.num())
        else:
            e = r.choice(syms)
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            e += r.choice("+-") + str(self.small() if r.random() < .7 else abs(self.num()))
        return e

    def program(self, nfiles=None, small=False):
        """Lists of (file) lines of a correct program."""
        r = self.r
        nf = nfiles or r.choice([1, 1, 2, 2, 3])
        nglob = r.randrange(3, 9)
        g = self.names(nglob * 3)
        funcs, datas, equs = g[:nglob], g[nglob:2 * nglob], g[2 * nglob:]
        files = []
        allsyms = g
        locs = []
        for f in range(nf):
            locs.append(["$" + n for n in self.names(r.randrange(3, 7), "")] + (["$1", "$2"] if r.random() < .7 else []))
            locs[-1] = sorted(set(locs[-1]))
        for f in range(nf):
            L = []
            loc = locs[f]
            codeloc = loc[:len(loc) // 2]
            dataloc = loc[len(loc) // 2:]
            syms = allsyms + loc
            code = [x for x in funcs + codeloc]
            for e in [e for k, e in enumerate(equs) if k % nf == f]:
                if r.random() < .5:
                    L.append(r.choice(["code", "lit", "data", "bss"]))
                L.append("equ %s %d" % (e, self.num()))
            objs = [d for k, d in enumerate(datas) if k % nf == f] + dataloc
            r.shuffle(objs)
            items = [("d", o) for o in objs] + [("f", x) for k, x in enumerate(funcs) if k % nf == f]
            r.shuffle(items)
            if codeloc and not any(t == "f" for t, _ in items):
                for c in codeloc:
                    L += ["code", "LABELV %s" % c]
                codeloc = []
            fi = [k for k, (t, _) in enumerate(items) if t == "f"]
            for k, (t, o) in enumerate(items):
                if t == "d":
                    self.obj(L, o, syms)
                else:
                    mine = codeloc if k == fi[-1] else codeloc[:1]
                    codeloc = codeloc[len(mine):]
                    self.func(L, o, mine, syms, code + funcs, small)
            files.append(L)
        return files

    def obj(self, L, name, syms):
        r = self.r
        seg = r.choice(["data", "lit", "bss", "data", "lit"])
        if r.random() < .7:
            L.append(seg)
        else:
            # keep the current segment, unless it is code
            cur = [x for x in L if x in ("data", "lit", "bss", "code")]
            if not cur or cur[-1] == "code":
                L.append(seg)
            else:
                seg = cur[-1]
        if r.random() < .5:
            L.append("export %s" % name)
        if r.random() < .8:
            L.append("align %d" % r.choice([1, 2, 4, 4, 4, 8, 16]))
        L.append("LABELV %s" % name)
        if seg == "bss":
            if r.random() < .9:
                L.append("skip %d" % r.choice([1, 2, 3, 4, 5, 12, 100, 1000, 65536]))
            return
        for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
            k = r.random()
            if k < .35:
                L.append("byte 4 %d" % self.num())
            elif k < .7:
                for _ in range(r.randrange(1, 7)):
                    L.append("byte 1 %d" % r.randrange(-128, 256))
            elif k < .9:
                L.append("address %s" % self.expr(syms))
            else:
                L.append("skip %d" % r.choice([1, 2, 3, 4, 8, 40]))

    def func(self, L, name, labels, syms, code, small):
        r = self.r
        L.append("code")
        if r.random() < .7:
            L.append("export %s" % name)
        lo, ar = r.choice([0, 4, 8, 5, 13, 100, 1000]), r.choice([0, 4, 8, 10, 40, 44])
        L.append("proc %s %d %d" % (name, lo, ar))
        if r.random() < .5:
            L.append('file "x.c"')
        todo = list(labels)
        n = r.randrange(1, 6 if small else 14)
        for i in range(n + len(todo) + 1):
            if todo and r.random() < .5 or i > n:
                if todo:
                    L.append("LABELV %s" % todo.pop())
                continue
            k = r.random()
            if k < .25:
                L.append("%s %s" % (r.choice(CONST), self.expr(syms)))
            elif k < .5:
                L.append(r.choice(OPS0))
            elif k < .6:
                L.append("%s %s" % (r.choice(BR), self.expr(code) if r.random() < .3 else r.choice(code)))
            elif k < .66:
                L.append(r.choice(IGN))
            elif k < .72:
                L.append(r.choice(CONV))
            elif k < .8:
                for _ in range(r.randrange(0, 4)):
                    L.append("ARG" + r.choice(["I4", "F4", "P4", "U4"]))
                L.append("CALL" + r.choice(["I4", "F4", "P4", "U4", "V", "V", "B"]))
                if r.random() < .4:
                    L.append("pop")
            elif k < .86:
                L.append("ADDRFP4 %s" % r.choice(["0", "4", "8", "12+4", "0-4", "40"]))
            elif k < .92:
                L.append("ADDRLP4 %s" % r.choice(["0", "4", "8", "12+4", "20-4", "40"]))
            elif k < .96:
                L.append("ASGNB %d" % r.choice([0, 1, 2, 3, 4, 5, 8, 12, 64, 1001]))
            else:
                L.append("RET" + r.choice(["I4", "F4", "P4", "U4", "V"]))
        for x in todo:
            L.append("LABELV %s" % x)
        L.append("endproc %s %d %d" % (name, lo, ar))

    def lexical(self, lines):
        """Same meaning, other spelling."""
        r = self.r
        out = []
        for s in lines:
            if r.random() < .3:
                s = r.choice([" ", "\t", "  ", " \t "]) + s
            if r.random() < .3:
                s = s.replace(" ", r.choice(["\t", "   ", " \t"]))
            if r.random() < .2:
                s += r.choice([" ", "\t", " ; comment", "\t;x y", "\r", " \r", " ;; byte 1 2", "\f"])
            out.append(s)
            if r.random() < .15:
                out.append(r.choice(["", "   ", ";", "; LABELV zzz", "\t; x", "\r", ";" + "c" * r.choice([10, 1022, 1023, 1024, 3000])]))
        return out


def encode(files):
    return [("\n".join(f)).encode("latin-1") for f in files]
