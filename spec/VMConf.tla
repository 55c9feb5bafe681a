------------------------------- MODULE VMConf -------------------------------
(* Host histories over several virtual machines, bound to logs recorded     *)
(* from the real library.                                                   *)
(*                                                                          *)
(* A case is a host script (create / call / free / helper operations on a   *)
(* few VMs; images; the behaviour of the host's callback is the fixed table *)
(* HostFn below) together with the log of everything the real library did   *)
(* at its interface while it ran that script.  The specification executes   *)
(* the script; every step that is visible at the interface must match the   *)
(* next log event.  A case that cannot be continued sets `bad'.             *)
EXTENDS Q3VM, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
MaxSteps == atoi(IOEnv.MAXSTEPS)          \* fuel: longer runs are "unspecified"

VARIABLES cid, step, op, l, vms, own, fr, ph, out, bad
vars == <<cid, step, op, l, vms, own, fr, ph, out, bad>>

C == Cases[cid]
Log == C.log
Ops == C.ops
More == l <= Len(Log)
Ev == Log[l]

(* event kinds *)
SYS == 1  RET == 2  ERR == 3  ALLOC == 4  FREE == 5  CREATED == 6  FREED == 7
MEM == 8  CRASH == 9  TIMEOUT == 10  CAP == 11  VAL == 12  END == 13  CANARY == 14

NoVM == [ok |-> FALSE, last |-> 0]
Unloaded(le) == [ok |-> FALSE, last |-> le]
Idle == [k |-> "idle"]

Match(p, e) == Len(p) = Len(e) /\ \A i \in 1..Len(p) : p[i] = POISON \/ p[i] = e[i]
Expect(p) == More /\ Match(p, Ev)

Running(i) == \E k \in 1..Len(fr) : fr[k].vm = i

TypeOK == /\ cid \in 1..Len(Cases) /\ out \in {"run", "done", "unspec"}
          /\ bad \in {"none", "bad"} /\ step <= MaxSteps + 5

Init == /\ cid \in 1..Len(Cases)
        /\ step = 0 /\ op = 1 /\ l = 1
        /\ vms = [i \in 1..4 |-> NoVM] /\ own = [i \in 1..4 |-> 0]
        /\ fr = <<>> /\ ph = Idle /\ out = "run" /\ bad = "none"

Fail == /\ bad' = "bad" /\ out' = "done"
        /\ UNCHANGED <<cid, op, l, vms, own, fr, ph>>
Unspec == /\ out' = "unspec" /\ UNCHANGED <<cid, op, l, vms, own, fr, ph, bad>>

\* The host operation (or nested callback operation) finishes with value r:
\* the value goes to the interrupted guest or the script continues.
Deliver(r, f2) ==
  IF f2 = <<>> THEN /\ op' = op + 1 /\ fr' = <<>>
  ELSE LET k == Len(f2)  f == f2[k]  o == Inc(f.ofs) IN
       /\ op' = op
       /\ fr' = [f2 EXCEPT ![k].os[o + 1] = r, ![k].ofs = o, ![k].ret = TRUE]

----------------------------------------------------------------------------
(* Operations shared by the host script and by callbacks *)

\* VM_Call(vm i, args): args has 13 words
BeginCall(i, args, f2) ==
  IF ~vms[i].ok
  THEN \* not loaded: reported, -1
       IF ~(l + 1 <= Len(Log) /\ Match(<<ERR, E_NOTLOADED>>, Log[l])
            /\ Match(<<RET, i, -1, E_NOTLOADED>>, Log[l + 1]))
       THEN Fail
       ELSE /\ l' = l + 2
            /\ vms' = [vms EXCEPT ![i].last = E_NOTLOADED]
            /\ Deliver(-1, f2) /\ ph' = Idle
            /\ UNCHANGED <<cid, own, out, bad>>
  ELSE LET v == vms[i] IN
       /\ fr' = Append(f2, NewFrame(i, v))
       /\ vms' = [vms EXCEPT ![i] = EnterVM(v, args)]
       /\ ph' = Idle
       /\ UNCHANGED <<cid, op, l, own, out, bad>>

BeginCreate(i, g, f2) ==
  /\ ph' = [k |-> "create", vm |-> i, img |-> g, failed |-> FALSE, errs |-> 0, f |-> f2]
  /\ UNCHANGED <<cid, op, l, vms, own, fr, out, bad>>
BeginFree(i, f2) ==
  IF Running(i)
  THEN IF ~(l + 1 <= Len(Log) /\ Match(<<ERR, E_FREE_RUNNING>>, Log[l])
            /\ Match(<<FREED, i, E_FREE_RUNNING>>, Log[l + 1]))
       THEN Fail
       ELSE /\ l' = l + 2
            /\ vms' = [vms EXCEPT ![i].last = E_FREE_RUNNING]
            /\ Deliver(0, f2) /\ ph' = Idle
            /\ UNCHANGED <<cid, own, out, bad>>
  ELSE /\ ph' = [k |-> "free", vm |-> i, f |-> f2]
       /\ UNCHANGED <<cid, op, l, vms, own, fr, out, bad>>

\* steps of a creation in progress: allocations, releases, error reports, end
LoadErrors == {E_LOAD, E_PC, E_JUMP, E_MALLOC, E_BADOP}
CreateStep ==
  LET i == ph.vm IN
  IF ~More THEN Fail
  ELSE IF Ev[1] = ALLOC /\ Ev[2] = i
  THEN /\ l' = l + 1
       /\ own' = IF Ev[4] = 1 THEN [own EXCEPT ![i] = @ + 1] ELSE own
       /\ ph' = IF Ev[4] = 1 THEN ph ELSE [ph EXCEPT !.failed = TRUE]
       /\ UNCHANGED <<cid, op, vms, fr, out, bad>>
  ELSE IF Ev[1] = FREE /\ Ev[2] = i /\ Ev[4] = 1
  THEN /\ l' = l + 1 /\ own' = [own EXCEPT ![i] = @ - 1]
       /\ UNCHANGED <<cid, op, vms, fr, ph, out, bad>>
  ELSE IF Ev[1] = ERR /\ Ev[2] \in LoadErrors
  THEN /\ l' = l + 1 /\ ph' = [ph EXCEPT !.errs = @ + 1]
       /\ UNCHANGED <<cid, op, vms, own, fr, out, bad>>
  ELSE IF Ev[1] = CREATED /\ Ev[2] = i
  THEN LET ld == IF ph.img = 0 THEN [ok |-> FALSE]      \* no image at all
                 ELSE Load(C.imgs[ph.img].b, C.imgs[ph.img].n)
           good == ld.ok /\ ~ph.failed
       IN IF good /\ Ev[3] = 0 /\ ph.errs = 0 /\ own[i] > 0 /\ Ev[4] = 0
          THEN /\ l' = l + 1 /\ ph' = Idle
               /\ vms' = [vms EXCEPT ![i] = [last |-> 0] @@ ld]
               /\ Deliver(0, ph.f)
               /\ UNCHANGED <<cid, own, out, bad>>
          ELSE IF ~good /\ Ev[3] = -1 /\ ph.errs > 0 /\ own[i] = 0
          THEN /\ l' = l + 1 /\ ph' = Idle
               /\ vms' = [vms EXCEPT ![i] = Unloaded(POISON)]
               /\ Deliver(-1, ph.f)
               /\ UNCHANGED <<cid, own, out, bad>>
          ELSE Fail
  ELSE Fail
FreeStep ==
  LET i == ph.vm IN
  IF ~More THEN Fail
  ELSE IF Ev[1] = FREE /\ Ev[2] = i /\ Ev[4] = 1
  THEN /\ l' = l + 1 /\ own' = [own EXCEPT ![i] = @ - 1]
       /\ UNCHANGED <<cid, op, vms, fr, ph, out, bad>>
  ELSE IF Match(<<FREED, i, 0>>, Ev) /\ own[i] = 0
  THEN /\ l' = l + 1 /\ ph' = Idle
       /\ vms' = [vms EXCEPT ![i] = NoVM]
       /\ Deliver(0, ph.f)
       /\ UNCHANGED <<cid, own, out, bad>>
  ELSE Fail

----------------------------------------------------------------------------
(* The host's system call table.  f2: frame stack below the callback (its   *)
(* last element is the calling guest).                                      *)
RangeOK(v, a, n) ==    \* VM_MemoryRangeValid, Word32 arguments
  IF a = 0 THEN "null" ELSE RangeStatus(v, a, n)
SetBytes(v, a, b, n) == FoldLeft(LAMBDA w, k : Poke(w, a + k - 1, b), v, [k \in 1..n |-> k])

HostFn(i, v, num, args, f2) ==
  \* finish: callback returns r with machine v1, having consumed d log events
  LET Fin(r, v1, d) ==
        /\ l' = l + d /\ vms' = [vms EXCEPT ![i] = v1]
        /\ Deliver(r, f2)
        /\ UNCHANGED <<cid, own, ph, out, bad>>
      a1 == args[1]  a2 == args[2]  a3 == args[3]
      Poisoned(s) == \E k \in s : args[k] = POISON
  IN
  CASE num = 0 -> Fin(0, v, 1)
    [] num = 1 -> Fin(a1, v, 1)
    [] num = 2 ->                               \* poke one byte
         IF Poisoned({1, 2}) THEN Unspec
         ELSE IF a1 = 0 THEN Fin(-1, v, 1)
         ELSE Fin(0, Store1(v, Mask(v, a1), a2), 1)
    [] num = 3 ->                               \* peek one byte
         IF Poisoned({1}) THEN Unspec
         ELSE IF a1 = 0 THEN Fin(-1, v, 1) ELSE Fin(Peek(v, Mask(v, a1)), v, 1)
    [] num \in {4, 5, 6} ->                     \* range check, memset, memcpy
         IF Poisoned({1, 2, 3}) THEN Unspec
         ELSE LET n == IF num = 4 THEN a2 ELSE a3
                  r1 == RangeOK(v, a1, n)
                  r2 == IF num = 6 THEN RangeOK(v, a2, n) ELSE "in"
                  done == IF num = 4 THEN v
                          ELSE IF num = 5 THEN SetBytes(Touch(v, a1, n), a1, Byte0(a2), n)
                          ELSE BlockCopy(v, a1, a2, n)
                  reported == l + 1 <= Len(Log) /\ Match(<<ERR, E_RANGE>>, Log[l + 1])
              IN IF r1 = "null" THEN Fin(-1, v, 1)
                 ELSE IF r1 = "out" THEN (IF reported THEN Fin(-1, v, 2) ELSE Fail)
                 ELSE IF r1 = "edge" /\ reported THEN Fin(-1, v, 2)
                 ELSE IF r2 = "null" THEN Fin(-1, v, 1)
                 ELSE IF r2 = "out" THEN (IF reported THEN Fin(-1, v, 2) ELSE Fail)
                 ELSE IF r2 = "edge" /\ reported THEN Fin(-1, v, 2)
                 ELSE Fin(0, done, 1)
    [] num = 12 -> Fin(a1, v, 1)                \* float argument, bit for bit
    [] num = 13 -> Fin(a1, v, 1)                \* garbage in the high half of the result
    [] num = 14 -> Fin(0, v, 1)
    [] num > 14 -> Fin(a1, v, 1)

\* callbacks that use the library again (their SYS event is already consumed)
NestedFn ==
  LET i == ph.vm  num == ph.num  args == ph.args  f2 == fr IN
  CASE num = 7 -> BeginCall(i, [k \in 1..13 |-> args[k]], f2)
    [] num = 8 -> BeginFree(i, f2)
    [] num = 9 -> BeginCall(args[1], [k \in 1..13 |-> args[k + 1]], f2)
    [] num = 10 -> BeginCreate(args[1], args[2], f2)
    [] num = 11 -> BeginFree(args[1], f2)

----------------------------------------------------------------------------
(* Guest execution *)
SetTop(f) == [fr EXCEPT ![Len(fr)] = f]
Below == SubSeq(fr, 1, Len(fr) - 1)

\* the running call ends with an error: codes, machine v
CallError(i, v, codes) ==
  IF l + 1 <= Len(Log) /\ Len(Log[l]) = 2 /\ Log[l][1] = ERR /\ Log[l][2] \in codes
     /\ Match(<<RET, i, -1, Log[l][2]>>, Log[l + 1])
  THEN /\ l' = l + 2
       /\ vms' = [vms EXCEPT ![i] = [v EXCEPT !.ps = fr[Len(fr)].entry, !.last = Log[l][2]]]
       /\ Deliver(-1, Below)
       /\ UNCHANGED <<cid, own, ph, out, bad>>
  ELSE Fail

\* division by zero must be reported, with an error of its own choosing
AnyError == {-n : n \in 1..99}

CallDone(i, r) ==
  LET stackBad == l <= Len(Log) /\ Match(<<ERR, E_STACK>>, Log[l])
      v == [r.v EXCEPT !.ps = fr[Len(fr)].entry]
  IN IF r.ok = "no" \/ (r.ok = "any" /\ stackBad)
     THEN IF stackBad /\ l + 1 <= Len(Log) /\ Match(<<RET, i, POISON, E_STACK>>, Log[l + 1])
          THEN /\ l' = l + 2
               /\ vms' = [vms EXCEPT ![i] = [v EXCEPT !.last = E_STACK]]
               /\ Deliver(POISON, Below)
               /\ UNCHANGED <<cid, own, ph, out, bad>>
          ELSE Fail
     ELSE IF Expect(<<RET, i, r.val, v.last>>)
     THEN /\ l' = l + 1
          /\ vms' = [vms EXCEPT ![i] = v]
          /\ Deliver(r.val, Below)
          /\ UNCHANGED <<cid, own, ph, out, bad>>
     ELSE Fail

Normal(i, f, v) ==
  /\ fr' = SetTop(f) /\ vms' = [vms EXCEPT ![i] = v]
  /\ UNCHANGED <<cid, op, l, own, ph, out, bad>>

Reported(i, f, v, codes) ==
  IF More /\ Ev[1] = ERR /\ Len(Ev) = 2 /\ Ev[2] \in codes
  THEN /\ fr' = SetTop(f) /\ vms' = [vms EXCEPT ![i] = [v EXCEPT !.last = Ev[2]]]
       /\ l' = l + 1
       /\ UNCHANGED <<cid, op, own, ph, out, bad>>
  ELSE Fail

SysCall(i, r) ==
  LET pat == <<SYS, i, r.num>> \o r.args
      f2 == SetTop(r.f)
      nested == r.num \in {7, 8, 9, 10, 11}
  IN IF ~Expect(pat) THEN Fail
     ELSE IF nested
     THEN \* consume the SYS event first; the operation starts in the next step
          IF \E k \in 1..13 : r.args[k] = POISON /\ r.num \in {7, 9} THEN Unspec
          ELSE IF r.num \in {9, 10, 11} /\ (r.args[1] = POISON \/ r.args[2] = POISON) THEN Unspec
          ELSE IF r.num \in {9, 10, 11} /\ r.args[1] \notin 1..4 THEN Unspec
          ELSE IF r.num = 9 /\ r.args[14] = POISON THEN Unspec
          ELSE IF r.num = 10 /\ (r.args[2] \notin 1..Len(C.imgs) \/ vms[r.args[1]].ok) THEN Unspec
          ELSE /\ ph' = [k |-> "nested", vm |-> i, num |-> r.num, args |-> r.args]
               /\ fr' = f2 /\ l' = l + 1
               /\ vms' = [vms EXCEPT ![i] = r.v]
               /\ UNCHANGED <<cid, op, own, out, bad>>
     ELSE IF r.num = 14
     THEN \* dump: next event is the memory
          IF l + 1 <= Len(Log) /\ Log[l + 1][1] = MEM /\ Log[l + 1][2] = i
             /\ Len(Log[l + 1]) - 2 = r.v.size \div 4
             /\ \A w \in 1..(r.v.size \div 4) :
                   LET x == Load4(r.v, 4 * (w - 1))  e == Log[l + 1][w + 2] IN
                   IF x # POISON THEN x = e
                   ELSE \A b \in 0..3 : LET y == Peek(r.v, 4 * (w - 1) + b) IN
                        y = POISON \/ y = (CASE b = 0 -> Byte0(e) [] b = 1 -> Byte1(e)
                                             [] b = 2 -> Byte2(e) [] b = 3 -> Byte3(e))
          THEN /\ l' = l + 2 /\ vms' = [vms EXCEPT ![i] = r.v]
               /\ Deliver(0, f2)
               /\ UNCHANGED <<cid, own, ph, out, bad>>
          ELSE Fail
     ELSE HostFn(i, r.v, r.num, r.args, f2)

\* When a callback returns, the linkage word next to the return address is the
\* machine's again (a debug build restores it).
Returned(f, v) == IF Debug /\ f.ret THEN Store4(v, Mask(v, Add(f.ps, 4)), POISON) ELSE v

\* (\E over a singleton: TLC evaluates action-level LETs at every use)
GuestStep ==
  \E i \in {fr[Len(fr)].vm} : 
  \E r \in {Instr([fr[Len(fr)] EXCEPT !.ret = FALSE], Returned(fr[Len(fr)], vms[i]))} :
  CASE r.t = "n"  -> Normal(i, r.f, r.v)
    [] r.t = "e"  -> CallError(i, r.v, r.codes)
    [] r.t = "ed" -> CallError(i, r.v, AnyError)
    [] r.t = "r"  -> Reported(i, r.f, r.v, r.codes)
    [] r.t = "er" -> IF More /\ Ev[1] = ERR THEN Reported(i, r.f, r.v0, r.codes)
                     ELSE Normal(i, r.f, r.v)
    [] r.t = "s"  -> SysCall(i, r)
    [] r.t = "x"  -> CallDone(i, r)
    [] r.t = "u"  -> Unspec

----------------------------------------------------------------------------
(* The host script *)
(* dump of all whole words of the segment, when idle *)
DumpOK(v, e) ==
  /\ Len(e) - 2 = v.size \div 4
  /\ \A w \in 1..(v.size \div 4) :
       LET x == Load4(v, 4 * (w - 1))  y == e[w + 2] IN
       IF x # POISON THEN x = y
       ELSE \A b \in 0..3 :
              LET z == Peek(v, 4 * (w - 1) + b) IN
              z = POISON \/ z = (CASE b = 0 -> Byte0(y) [] b = 1 -> Byte1(y)
                                   [] b = 2 -> Byte2(y) [] b = 3 -> Byte3(y))
Simple(r, ok, d) ==      \* an operation that only consumes d events
  IF ok THEN /\ l' = l + d /\ Deliver(r, <<>>)
             /\ UNCHANGED <<cid, vms, own, ph, out, bad>>
  ELSE Fail

\* 64-bit values as <<high, low>> words
Small(hi, lo) == hi = 0 /\ lo >= 0
RangeOp(v, ahi, alo, nhi, nlo) ==
  IF ahi = 0 /\ alo = 0 THEN "null"
  ELSE IF ~Small(ahi, alo) \/ ~Small(nhi, nlo) THEN "out"
  ELSE RangeStatus(v, alo, nlo)

HostStep ==
  LET o == Ops[op]  i == o[2] IN
  CASE o[1] \in {1, 10} /\ vms[i].ok -> Simple(0, TRUE, 0)      \* skipped
    [] o[1] = 1 -> BeginCreate(i, o[3], <<>>)
    [] o[1] = 2 -> BeginCall(i, SubSeq(o, 3, 15), <<>>)
    [] o[1] = 3 -> BeginFree(i, <<>>)
    [] o[1] = 4 -> \* dump memory
         IF ~vms[i].ok THEN Simple(0, Expect(<<MEM, i>>), 1)
         ELSE Simple(0, More /\ Ev[1] = MEM /\ Ev[2] = i /\ DumpOK(vms[i], Ev), 1)
    [] o[1] = 5 -> \* VM_ArgPtr(addr): offset in the segment, -1 for NULL
         Simple(0, Expect(<<VAL, IF o[3] = 0 THEN -1 ELSE Mask(vms[i], o[3])>>), 1)
    [] o[1] = 6 -> \* VM_MemoryRangeValid with 64-bit arguments
         LET s == RangeOp(vms[i], o[3], o[4], o[5], o[6])
             rep == l + 1 <= Len(Log) /\ Match(<<ERR, E_RANGE>>, Log[l])
                    /\ Match(<<VAL, -1>>, Log[l + 1])
         IN (CASE s = "null" -> Simple(0, Expect(<<VAL, -1>>), 1)
              [] s = "out"  -> Simple(0, rep, 2)
              [] s = "in"   -> Simple(0, Expect(<<VAL, 0>>), 1)
              [] s = "edge" -> IF rep THEN Simple(0, rep, 2) ELSE Simple(0, Expect(<<VAL, 0>>), 1))
    [] o[1] = 7 -> Simple(0, Expect(<<VAL, o[3]>>), 1)         \* float bits round trip
    [] o[1] = 8 -> \* operations on NULL
         LET k == o[3] IN
         IF k \in {0, 1, 3}       \* create, call: -1; argptr: NULL; all reported
         THEN Simple(0, l + 1 <= Len(Log) /\ Match(<<ERR, E_NULL>>, Log[l])
                        /\ Match(<<VAL, -1>>, Log[l + 1]), 2)
         ELSE IF k = 2 THEN Simple(0, Expect(<<VAL, 0>>), 1)    \* VM_Free(NULL): nothing
         ELSE Simple(0, Expect(<<VAL, -1>>), 1)                 \* range: invalid
    [] o[1] = 9 -> \* create without callback: reported, VM as before
         IF l + 1 <= Len(Log) /\ Match(<<ERR, E_NOSYSCALL>>, Log[l])
            /\ Match(<<CREATED, i, -1, E_NOSYSCALL>>, Log[l + 1])
         THEN /\ l' = l + 2 /\ Deliver(0, <<>>)
              /\ vms' = [vms EXCEPT ![i].last = E_NOSYSCALL]
              /\ UNCHANGED <<cid, own, ph, out, bad>>
         ELSE Fail
    [] o[1] = 10 -> BeginCreate(i, 0, <<>>)      \* create with a NULL image

\* After leaving the specified world only containment counts: the real run
\* must not have crashed or damaged anything outside (such events are placed
\* last in the log).
Contained == \A k \in 1..Len(Log) : Log[k][1] \notin {CRASH, CANARY}
\* ... and even then the run may depend only on the image and the script:
\* C.alts are logs of the same build with other contents of host memory.
Deterministic == \A k \in 1..Len(C.alts) : C.alts[k] = Log
Finish == IF Expect(<<END>>) /\ l = Len(Log) /\ Deterministic
          THEN /\ out' = "done" /\ PrintT(<<"done", cid, step>>)
               /\ UNCHANGED <<cid, op, l, vms, own, fr, ph, bad>>
          ELSE Fail

UnspecEnd == /\ out' = "done"
             /\ PrintT(<<"unspec", cid, step>>)
             /\ bad' = IF Contained /\ Deterministic THEN "none" ELSE "bad"
             /\ UNCHANGED <<cid, op, l, vms, own, fr, ph>>

\* the specified behaviour leaves room for runs of any length: give up
GiveUp == step >= MaxSteps \/ (step > 300 /\ More /\ Ev[1] = CAP)

Step ==
  IF out = "unspec" THEN UnspecEnd
  ELSE IF GiveUp THEN Unspec
  ELSE IF ph.k = "create" THEN CreateStep
  ELSE IF ph.k = "free" THEN FreeStep
  ELSE IF ph.k = "nested" THEN NestedFn
  ELSE IF fr # <<>> THEN GuestStep
  ELSE IF op <= Len(Ops) THEN HostStep
  ELSE Finish
Next == \/ /\ out = "done" /\ UNCHANGED vars
        \/ /\ out # "done" /\ step' = step + 1 /\ Step

Spec == Init /\ [][Next]_vars
View == <<cid, step>>

----------------------------------------------------------------------------
(* What is checked in every state of every case *)
Conforms == bad = "none"
Safe == out = "run" =>
          /\ \A k \in 1..Len(fr) : FrameSafe(fr[k], vms[fr[k].vm])
          /\ \A i \in 1..4 : vms[i].ok => MachineSafe(vms[i])

Shown == [case |-> cid, id |-> C.id, step |-> step, script |-> op, logpos |-> l,
          expecting |-> IF More THEN Ev ELSE <<>>, bad |-> bad, out |-> out,
          frame |-> IF fr = <<>> THEN <<>> ELSE
             LET f == fr[Len(fr)] IN <<f.vm, f.pc, f.ps, f.ofs, SubSeq(f.os, 1, 5)>>]
=============================================================================
