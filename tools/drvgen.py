"""Command lines for the compiler driver (L08)."""
NAMES = ["a.c", "b.c", "x.y.c", "sub/d.c", "p.i", "q.r.i", "m.asm", "n.o", "plain", "h.h", "z.c.c", "sub/e.i", "c.c.i", "longer_name_of_a_file.c"]


def case(r, k):
    """dict: argv, env, files (that exist), progs (existing stand-ins), stats"""
    dirs = ["alt", "cc dir", "one"]
    files = [n for n in NAMES if r.random() < .9]
    opts = []
    word = lambda: r.choice(["A", "B1", "long_name_of_a_macro", "x=1", "N=(a + 'b')", "S=\"text $1\"", "E=", "A=-2", "F(x)=x"])

    def opt():
        w = r.randrange(26)
        if w < 5:
            return ["-D" + word()]
        if w == 5:
            return ["-U" + r.choice(["A", "__STDC__", "B1"])]
        if w < 8:
            return ["-I" + r.choice([".", "..", "inc", "/abs/inc", "a b", "sub/"])]
        if w == 8:
            return ["-d" + r.choice(["1", "0.5", ""])]
        if w < 11:
            return [r.choice(["-A", "-n", "-w", "-P", "-b", "-g", "-O", "-c", "-S"])]
        if w == 11:
            return ["-Wp" + r.choice(["-DX", "-IY", "-Uz", "file"])]
        if w == 12:
            return ["-Wf" + r.choice(["-C", "-A", "-s2", "x", "-g3,//"])]
        if w == 13:
            return ["-W" + r.choice(["a-x", "l-y", "", "q", "x1", "p", "f", "o"])]
        if w == 14:
            return ["-Wo" + r.choice(["-lccdir=alt", "-lcppdir=alt", "-lrccdir=alt", "-lccdir=nodir", "-lcppdir=nodir", "-lrccdir=nodir", "-p", "-g", "-zz", "-ld=x", "-lccdir=one"])]
        if w == 15:
            return ["-tempdir=" + r.choice(["tmp2", "tmp2"])]
        if w == 16:
            return [r.choice(["-t", "-tname", "-p", "-pg", "-px", "-zz", "-long", "-lm", "-lx", "-static", "-help", "-?"])]
        if w == 17:
            return ["-B" + r.choice(["alt/", "one/", "nodir/", "", "cc dir/"])] if r.random() < .5 else []
        if w == 18:
            return ["-target"] + r.choice([["bytecode"], ["foo"], []])
        if w == 19:
            return ["-N"]
        if w == 20:
            return ["-v"] if r.random() < .3 else []
        if w == 21:
            return ["-E"] if r.random() < .3 else []
        if w < 25:
            return ["-o", r.choice(["out.asm", "out", "sub/o.asm", "a b.asm"])] if r.random() < .8 else ["-o", r.choice(["bad.c", "bad.i", "x.asm"])]
        return []
    parts = [opt() for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12]))]
    nf = r.choice([1, 1, 1, 1, 2, 3, 0])
    if r.random() < .35:
        # which file the output goes to: few options, files of all kinds
        parts = [opt() for _ in range(r.choice([0, 1, 2]))] + ([["-o", r.choice(["out.asm", "out", "sub/o.asm"])]] if r.random() < .7 else [])
        nf = r.choice([1, 2, 2, 3])
        parts += [[r.choice(r.choice([["a.c", "x.y.c", "sub/d.c", "z.c.c"], ["p.i", "q.r.i", "sub/e.i"], ["m.asm"], ["n.o"], ["plain", "h.h"]]))] for _ in range(nf)]
    else:
        parts += [[r.choice(NAMES + ["a.c", "b.c", "a.c"])] for _ in range(nf)]
    if r.random() < .1:
        parts.append([r.choice(["missing.c", "missing", "gone.i"])])
    r.shuffle(parts)
    argv = [x for p in parts for x in p]
    if r.random() < .02:
        argv.append("-o")
    # a file that is also named after -o, or the word after -target, is fine; "-target" last is fine
    env = {}
    tv = r.choice(["TMP", "TEMP", "TMPDIR"])
    env[tv] = r.choice(["tmp1", "tmp1", "tmp1/", "tmp1//"])
    if tv != "TMP" and r.random() < .3:
        env["TMP"] = "tmp3"
    if r.random() < .15:
        env["LCCDIR"] = r.choice(["alt", "one"])
    stats = [r.choice(["0"] * 9 + ["1", "2", "255", "kill", "100"]) for _ in range(8)]
    if r.random() < .06:
        stats[r.randrange(3)] = "term"
    return dict(argv=argv, env=env, files=files, dirs=dirs, stats=stats)
