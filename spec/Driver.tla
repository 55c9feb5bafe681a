------------------------------- MODULE Driver -------------------------------
(* The compiler driver: a command line becomes a sequence of runs of the    *)
(* preprocessor and the compiler proper, temporary files, and an exit       *)
(* status.                                                                  *)
(*                                                                          *)
(* A case is a command line with the files that exist, the statuses with    *)
(* which the phases end (one after the other), and what the real driver     *)
(* did: the commands it ran (recorded by stand-ins for the phases), its     *)
(* exit status and the files it left behind.                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, step, m
vars == <<cid, step, m>>
C == Cases[cid]

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Pre(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* a proper suffix
Sfx(s, t) == Len(s) > Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Kind(s) == IF Sfx(s, ".c") THEN "c" ELSE IF Sfx(s, ".i") THEN "i" ELSE IF Sfx(s, ".asm") THEN "asm" ELSE IF Sfx(s, ".o") THEN "o" ELSE ""
Range0(s) == {s[i] : i \in 1..Len(s)}
\* name without directories and the last suffix
RECURSIVE LastOf(_, _, _)
LastOf(s, c, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE LastOf(s, c, i - 1)
Base(s) == LET b == From(s, LastOf(s, "/", Len(s)) + 1)  d == LastOf(b, ".", Len(b)) IN IF d = 0 THEN b ELSE SubSeq(b, 1, d - 1)
RECURSIVE NoSlash(_)
NoSlash(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in {"/", "\\"} THEN NoSlash(SubSeq(s, 1, Len(s) - 1)) ELSE s

Predef == <<"-D__STDC__=1", "-D__STRICT_ANSI__", "-D__signed__=signed", "-DQ3_VM">>
Start == [ph |-> "opts", i |-> 1, ev |-> 1, run |-> 1, out |-> "", why |-> "",
          plist |-> <<"-D__LCC__">> , clist |-> <<>>, inc |-> <<>>, rest |-> <<>>, nf |-> 0, E |-> FALSE, verb |-> 0, ofile |-> "",
          cpp |-> C.bin \o "q3cpp", com |-> C.bin \o "q3rcc", bset |-> FALSE, tmp |-> NoSlash(C.tmp), errs |-> 0, cur |-> "", fi |-> 1]

\* options that name directories of the phases; the others are accepted without effect
WOptions == {"-p", "-pg", "-b", "-g", "-static"}
IsWo(a) == a \in WOptions \/ Pre(a, "-lccdir=") \/ Pre(a, "-lcppdir=") \/ Pre(a, "-lrccdir=") \/ Pre(a, "-ld=")
Wo(r, a) ==
  IF Pre(a, "-lccdir=") THEN [r EXCEPT !.cpp = From(a, 9) \o "/q3cpp", !.com = From(a, 9) \o "/q3rcc", !.inc = <<"-I" \o From(a, 9) \o "/include">>]
  ELSE IF Pre(a, "-lcppdir=") THEN [r EXCEPT !.cpp = From(a, 10) \o "/q3cpp"]
  ELSE IF Pre(a, "-lrccdir=") THEN [r EXCEPT !.com = From(a, 10) \o "/q3rcc"]
  ELSE r
CL(r, x) == [r EXCEPT !.clist = Append(@, x)]
PL(r, x) == [r EXCEPT !.plist = Append(@, x)]
Opt(r, a) ==
  LET c == Ch(a, 2) IN
  CASE c = "W" -> IF Len(a) < 4 THEN r
                  ELSE IF Ch(a, 3) = "o" THEN Wo(r, From(a, 4))
                  ELSE IF Ch(a, 3) = "p" THEN PL(r, From(a, 4))
                  ELSE IF Ch(a, 3) = "f" THEN CL(r, From(a, 4)) ELSE r
    [] c = "d" -> CL(r, "-s" \o From(a, 3))
    [] c = "t" -> IF Pre(a, "-tempdir=") THEN [r EXCEPT !.tmp = From(a, 10)] ELSE CL(r, a)
    [] c = "p" -> IF a \in WOptions THEN CL(r, a) ELSE r
    [] c \in {"D", "U", "I"} -> PL(r, a)
    [] c = "B" -> [r EXCEPT !.com = From(a, 3) \o "rcc", !.errs = @ + (IF r.bset THEN 1 ELSE 0) + (IF Len(a) = 2 THEN 1 ELSE 0), !.bset = TRUE]
    [] a \in {"-A", "-n", "-w", "-P", "-b"} -> CL(r, a)
    [] a = "-g" -> CL(r, "-g2")
    [] a = "-E" -> [r EXCEPT !.E = TRUE]
    [] a = "-N" -> [r EXCEPT !.inc = <<>>]
    [] a = "-v" -> IF r.verb = 0 THEN [CL(r, a) EXCEPT !.verb = 1] ELSE [r EXCEPT !.verb = @ + 1]
    [] OTHER -> r

Finished(r, o) == [r EXCEPT !.ph = "end", !.out = o]
\* the driver gives up: status not zero
GiveUp(r) == [r EXCEPT !.ph = "exit", !.errs = @ + 1]

Options(r) ==
  IF r.i > Len(C.argv)
  THEN LET r1 == IF r.ofile # "" /\ r.nf # 1 THEN [r EXCEPT !.ofile = ""] ELSE r
           r2 == [r1 EXCEPT !.plist = @ \o r1.inc, !.ph = "files", !.i = 1]
       IN IF C.argv = <<>> THEN [r2 EXCEPT !.ph = "exit"] ELSE r2
  ELSE
  LET a == C.argv[r.i]  n == [r EXCEPT !.i = @ + 1] IN
  IF a = "-o" THEN (IF r.i = Len(C.argv) THEN GiveUp(n)
                    ELSE LET f == C.argv[r.i + 1] IN
                         IF Kind(f) \in {"c", "i"} THEN GiveUp(n) ELSE [n EXCEPT !.ofile = f, !.i = @ + 1])
  ELSE IF a = "-target" THEN (IF r.i < Len(C.argv) /\ Ch(C.argv[r.i + 1], 1) # "-" THEN [n EXCEPT !.i = @ + 1] ELSE n)
  ELSE IF Ch(a, 1) = "-" /\ Ch(a, 2) # "l" THEN Opt(n, a)
  ELSE IF Ch(a, 1) = "-" THEN n                     \* libraries are not linked
  ELSE [n EXCEPT !.rest = Append(@, a), !.nf = @ + (IF Kind(a) \in {"c", "i", "asm"} THEN 1 ELSE 0)]

\* Running a command: path and arguments.  An argument "?i" stands for the name of a temporary file.
IsTemp(r, x) == Pre(x, r.tmp \o "/") /\ Sfx(x, ".i") /\ x \notin Range0(C.files) /\ LastOf(x, "/", Len(x)) = Len(r.tmp) + 1
Matches(r, args, got) ==
  /\ Len(args) = Len(got)
  /\ \A k \in 1..Len(args) : IF args[k] = "?i" THEN IsTemp(r, got[k]) ELSE args[k] = got[k]
Run(r, path, args, ok, bad) ==
  IF r.verb > 1 THEN ok[1]
  ELSE IF path \notin Range0(C.progs) THEN bad      \* no such program: the phase fails
  ELSE IF r.ev > Len(C.events) THEN Finished(r, "command missing")
  ELSE LET e == C.events[r.ev]
           r1 == [r EXCEPT !.ev = @ + 1, !.run = @ + 1, !.cur = IF e.args = <<>> THEN "" ELSE e.args[Len(e.args)]]
           st == IF r.run > Len(C.stats) THEN "0" ELSE C.stats[r.run]
       IN IF e.path # path THEN Finished([r EXCEPT !.why = <<path, e.path>>], "other program run")
          ELSE IF ~Matches(r, args, e.args) THEN Finished([r EXCEPT !.why = <<args, e.args>>], "other arguments")
          ELSE IF st = "term" THEN GiveUp(r1)        \* interrupted: ends at once
          ELSE IF st = "0" THEN [ok[1] EXCEPT !.ev = r1.ev, !.run = r1.run, !.cur = r1.cur]
          ELSE [bad EXCEPT !.ev = r1.ev, !.run = r1.run]
Next1(r) == [r EXCEPT !.fi = @ + 1, !.ph = "files"]
Failed(r) == [Next1(r) EXCEPT !.errs = @ + 1]
Dest(r, f) == IF r.ofile # "" THEN r.ofile ELSE Base(f) \o ".asm"
Files(r) ==
  IF r.fi > Len(r.rest) THEN [r EXCEPT !.ph = "exit"]
  ELSE
  LET f == r.rest[r.fi]  k == Kind(f) IN
  IF r.verb < 2 /\ f \notin Range0(C.files) THEN Failed(r)
  ELSE IF r.E THEN (IF k \in {"c", ""} THEN Run(r, r.cpp, Predef \o r.plist \o <<f>>, <<Next1(r)>>, Failed(r)) ELSE Next1(r))
  ELSE CASE k = "c" -> Run(r, r.cpp, Predef \o r.plist \o <<f, "?i">>, <<[r EXCEPT !.ph = "rcc"]>>, Failed(r))
         [] k = "i" -> [r EXCEPT !.ph = "rcc", !.cur = f]
         [] OTHER -> Next1(r)
Rcc(r) == Run(r, r.com, <<"-target=bytecode">> \o r.clist \o <<r.cur, Dest(r, r.rest[r.fi])>>, <<Next1(r)>>, Failed(r))

Exit(r) ==
  IF r.ev # Len(C.events) + 1 THEN Finished(r, "more commands run")
  ELSE IF C.crash # "" THEN Finished(r, "crash")
  ELSE IF (C.rc = 0) # (r.errs = 0) THEN Finished(r, "exit status")
  ELSE IF C.left # <<>> THEN Finished(r, "temporary files left")
  ELSE Finished(r, "agrees")
Step(r) ==
  CASE r.ph = "opts" -> Options(r)
    [] r.ph = "files" -> Files(r)
    [] r.ph = "rcc" -> Rcc(r)
    [] r.ph = "exit" -> Exit(r)
Init == cid \in 1..Len(Cases) /\ step = 0 /\ m = Start
Next == \/ /\ m.ph # "end" /\ cid' = cid /\ step' = step + 1
           /\ \E r \in {Step(m)} : m' = r
           /\ (m'.ph = "end") => PrintT(<<IF m'.out # "agrees" THEN "bad" ELSE IF m'.errs > 0 THEN "fails" ELSE "succeeds", cid>>)
        \/ m.ph = "end" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<cid, step>>
Conforms == m.out \in {"", "agrees"}
\* a phase never runs after the one before it failed, and each file is handled once
Sane == m.run <= 2 * Len(m.rest) + 1 /\ m.fi <= Len(m.rest) + 1
Shown == [case |-> cid, name |-> C.name, out |-> m.out, why |-> m.why, argv |-> C.argv, ev |-> m.ev, errs |-> m.errs, rc |-> C.rc, left |-> C.left]
=============================================================================
