-------------------------------- MODULE Host --------------------------------
(* The standalone interpreter: one image file is loaded and run once with   *)
(* the host's four system calls; what the guest prints goes to the standard *)
(* output and the standard error, and the way the run ends decides the exit *)
(* status.                                                                  *)
(*                                                                          *)
(* A case is a file (its bytes), and what the real program did with it: the *)
(* bytes of both streams, the exit status, and whether it crashed.          *)
EXTENDS Q3VM, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
MaxSteps == 6000

VARIABLES cid, step, v, f, po, pe, out
vars == <<cid, step, v, f, po, pe, out>>
C == Cases[cid]

Init == cid \in 1..Len(Cases) /\ step = 0 /\ v = <<>> /\ f = <<>> /\ po = 1 /\ pe = 1 /\ out = "start"

\* the stream s continues with the bytes b from position p on
Has(s, p, b) == C.crash = "timeout" \/ (p + Len(b) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(b) - 1) = b)
End(o) == out' = o /\ UNCHANGED <<cid, v, f, po, pe>> /\ PrintT(<<o, cid, step>>)
\* unspecified from here: whatever happens, no crash
Unspec == IF C.crash \in {"", "timeout"} THEN End("unspec") ELSE End("crash")
\* the run ends with a diagnostic and a status that is not zero
Failure == IF C.crash # "" THEN End("crash")
           ELSE IF C.rc = 0 THEN End("no failure status")
           ELSE IF po # Len(C.out) + 1 THEN End("output differs")
           ELSE IF pe > Len(C.err) THEN End("no diagnostic")
           ELSE End("failed")
Refused == IF C.crash # "" THEN End("crash") ELSE IF C.rc = 0 THEN End("loaded") ELSE End("refused")
Normal(val) == IF C.crash # "" THEN End("crash")
               ELSE IF po # Len(C.out) + 1 THEN End("output differs")
               ELSE IF pe # Len(C.err) + 1 THEN End("error output differs")
               ELSE IF val # POISON /\ C.rc # Byte0(val) THEN End("exit status differs")
               ELSE End("agrees")

\* the string at address a: it ends with the first zero byte; the bytes behind the segment end every string
RECURSIVE StrLen(_, _, _)
StrLen(w, a, n) == IF a + n >= PageSize * Len(w.mem) THEN n ELSE IF Peek(w, a + n) = 0 THEN n ELSE StrLen(w, a, n + 1)
Str(w, a) == [i \in 1..StrLen(w, a, 0) |-> Peek(w, a + i - 1)]

Go(w, g, p, q) == v' = w /\ f' = g /\ po' = p /\ pe' = q /\ out' = "" /\ cid' = cid
Ret(g, x) == LET o == Inc(g.ofs) IN [g EXCEPT !.os[o + 1] = x, !.ofs = o]
RangeOK(w, a, n) == IF a = 0 THEN "null" ELSE RangeStatus(w, a, n)
SetBytes(w, a, b, n) == FoldLeft(LAMBDA x, k : Poke(x, a + k - 1, b), w, [k \in 1..n |-> k])

SysCall(w, g, num, args) ==
  IF num \in {0, 1}
  THEN IF args[1] = POISON \/ args[1] = 0 THEN Unspec
       ELSE \E s \in {TLCEval(Str(w, Mask(w, args[1])))} :
            IF \E k \in 1..Len(s) : s[k] = POISON THEN Unspec
            ELSE IF num = 0
            THEN IF Has(C.out, po, s) THEN Go(w, Ret(g, POISON), po + Len(s), pe)
                 ELSE End(IF C.crash # "" THEN "crash" ELSE "output differs")
            ELSE IF Has(C.err, pe, s) THEN Go(w, Ret(g, POISON), po, pe + Len(s))
                 ELSE End(IF C.crash # "" THEN "crash" ELSE "error output differs")
  ELSE IF num \in {2, 3}
  THEN IF \E k \in 1..3 : args[k] = POISON THEN Unspec
       ELSE LET n == args[3]
                r1 == RangeOK(w, args[1], n)
                r2 == IF num = 3 THEN RangeOK(w, args[2], n) ELSE "in"
                done == IF num = 2 THEN SetBytes(Touch(w, args[1], n), args[1], Byte0(args[2]), n)
                        ELSE BlockCopy(w, args[1], args[2], n)
                Fine == Go(done, Ret(g, args[1]), po, pe)
                Nothing == Go(w, Ret(g, args[1]), po, pe)
                \* ranges that end exactly at the end of the segment may be refused
                Edge == IF C.rc # 0 /\ C.crash = "" /\ po = Len(C.out) + 1 /\ pe <= Len(C.err) THEN End("edge") ELSE Fine
            IN IF r1 = "null" THEN Nothing
               ELSE IF r1 = "out" THEN Failure
               ELSE IF r2 = "null" THEN (IF r1 = "edge" /\ C.rc # 0 THEN Edge ELSE Nothing)
               ELSE IF r2 = "out" THEN Failure
               ELSE IF r1 = "edge" \/ r2 = "edge" THEN Edge ELSE Fine
  ELSE \* no such system call: a line on the error stream, and the result is 0
       LET nl == SelectInSeq(SubSeq(C.err, pe, Len(C.err)), LAMBDA c : c = 10) IN
       IF nl < 2 /\ C.crash # "timeout" THEN End(IF C.crash # "" THEN "crash" ELSE "no diagnostic")
       ELSE Go(w, Ret(g, 0), po, pe + nl)

Start ==
  LET ld == Load(C.img, C.n) IN
  IF ~ld.ok THEN Refused
  ELSE \E w \in {ld} :
       \* the command is 0; the other arguments are not specified
       \* what the interpreter prints about loading is not specified: it is what it prints for a guest that does nothing
       IF ~Has(C.out, 1, C.pre) THEN (IF C.crash # "" THEN End("crash") ELSE End("output differs"))
       ELSE po' = 1 + Len(C.pre) /\ v' = EnterVM(w, [k \in 1..MaxMainArgs |-> IF k = 1 THEN 0 ELSE POISON]) /\ f' = NewFrame(1, w) /\ out' = "" /\ UNCHANGED <<cid, pe>>

Run ==
  \E r \in {Instr(f, v)} :
  CASE r.t = "n" -> Go(r.v, r.f, po, pe)
    [] r.t \in {"e", "ed", "r"} -> Failure
    [] r.t = "er" -> IF C.rc # 0 /\ C.crash = "" /\ po = Len(C.out) + 1 /\ pe <= Len(C.err) THEN End("edge") ELSE Go(r.v, r.f, po, pe)
    [] r.t = "s" -> SysCall(r.v, r.f, r.num, r.args)
    [] r.t = "x" -> IF r.ok = "yes" THEN Normal(r.val) ELSE IF r.ok = "no" THEN Failure ELSE Unspec
    [] r.t = "u" -> Unspec

Over == {"agrees", "unspec", "failed", "refused", "edge"}
Next ==
  \/ /\ out \in {"start", ""} /\ step' = step + 1
     /\ IF out = "start" THEN Start ELSE IF step >= MaxSteps THEN Unspec ELSE Run
  \/ out \notin {"start", ""} /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<cid, step>>
Conforms == out \in Over \cup {"start", ""}
Safe == out = "" => FrameSafe(f, v) /\ MachineSafe(v)
Shown == [case |-> cid, name |-> C.name, step |-> step, out |-> out, pos |-> <<po, pe>>, rc |-> C.rc, crash |-> C.crash,
          f |-> IF f = <<>> THEN <<>> ELSE [pc |-> f.pc, ps |-> f.ps, ofs |-> f.ofs, top |-> f.os[f.ofs + 1]]]
=============================================================================
