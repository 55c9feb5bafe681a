-------------------------------- MODULE Q3VM --------------------------------
(* The Q3VM virtual machine: image format and loader, instruction set,      *)
(* sandboxed memory, frames, system calls.  Pure functions of machine       *)
(* records; the state machines that use them are in VMConf.tla (host        *)
(* histories bound to logs of the real interpreter) and VMGen.tla.          *)
(*                                                                          *)
(* A value is a Word32 or POISON ("unspecified": any word).  POISON bytes   *)
(* stand for saved return addresses and other linkage that only the machine *)
(* itself may interpret.  A program whose control flow or addresses depend  *)
(* on POISON leaves the specified world ("u" steps): from then on only      *)
(* containment is required of the implementation.                           *)
EXTENDS Float32, SequencesExt, TLC

CONSTANT POISON           \* a model value
CONSTANT Debug            \* TRUE: DEBUG_VM checks are specified as well

------------------------------ (* opcodes *) --------------------------------
OpNames == << "UNDEF", "IGNORE", "BREAK", "ENTER", "LEAVE", "CALL", "PUSH",
  "POP", "CONST", "LOCAL", "JUMP", "EQ", "NE", "LTI", "LEI", "GTI", "GEI",
  "LTU", "LEU", "GTU", "GEU", "EQF", "NEF", "LTF", "LEF", "GTF", "GEF",
  "LOAD1", "LOAD2", "LOAD4", "STORE1", "STORE2", "STORE4", "ARG",
  "BLOCK_COPY", "SEX8", "SEX16", "NEGI", "ADD", "SUB", "DIVI", "DIVU",
  "MODI", "MODU", "MULI", "MULU", "BAND", "BOR", "BXOR", "BCOM", "LSH",
  "RSHI", "RSHU", "NEGF", "ADDF", "SUBF", "DIVF", "MULF", "CVIF", "CVFI" >>
NOps == Len(OpNames)                      \* opcode = index - 1

IsBranch(op) == op >= 11 /\ op <= 26
HasWord(op) == op \in {3, 4, 8, 9, 34} \/ IsBranch(op)     \* 4 byte operand
HasByte(op) == op = 33                                     \* 1 byte operand
OperandLen(op) == IF HasWord(op) THEN 4 ELSE IF HasByte(op) THEN 1 ELSE 0

(* error codes reported to the host *)
E_LOAD == -2          E_FREE_RUNNING == -4     E_BLOCKCOPY == -5
E_PC == -6            E_JUMP == -7             E_STACK_OVERFLOW == -8
E_MISALIGNED == -9    E_LOAD4 == -10           E_STACK == -11
E_RANGE == -12        E_MALLOC == -13          E_BADOP == -14
E_NOTLOADED == -15    E_NULL == -1             E_NOSYSCALL == -3

------------------------------ (* the loader *) ------------------------------
Magic == 309466180                        \* 0x12721444
HeaderSize == 32
MaxImage == 4194304
MaxBss == 10485760
StackSize == 65536

Word(img, o) == FromBytes(img[o+1], img[o+2], img[o+3], img[o+4])

\* a + b <= c for naturals without overflow
SumLE(a, b, c) == a <= c /\ b <= c - a

Header(img) == [ n  |-> Word(img, 4),  co |-> Word(img, 8),  cl |-> Word(img, 12),
                 do |-> Word(img, 16), dl |-> Word(img, 20), ll |-> Word(img, 24),
                 bl |-> Word(img, 28) ]

HeaderOK(img, len) ==
  /\ len > HeaderSize /\ len <= MaxImage
  /\ Word(img, 0) = Magic
  /\ LET h == Header(img) IN
     /\ h.n > 0 /\ h.cl > 0
     /\ h.co >= 0 /\ h.do >= 0 /\ h.dl >= 0 /\ h.ll >= 0 /\ h.bl >= 0
     /\ h.bl <= MaxBss
     /\ SumLE(h.co, h.cl, len)
     /\ h.dl <= len /\ h.ll <= len /\ SumLE(h.do, h.dl + h.ll, len)

\* Decode the n instructions one after the other from the code bytes.
\* State: [ok, b: next code byte, code: words, ip: word index per instruction]
\* (folds, not recursion: TLC's cost per recursion level grows with depth)
DecodeOne(img, h, d) ==
  IF ~d.ok THEN d
  ELSE IF d.b >= h.cl THEN [d EXCEPT !.ok = FALSE]
  ELSE LET op == img[h.co + d.b + 1]
           k == OperandLen(op)
       IN IF op >= NOps \/ d.b + 1 + k > h.cl THEN [d EXCEPT !.ok = FALSE]
          ELSE [d EXCEPT !.b = @ + 1 + k,
                         !.ip = Append(@, Len(d.code)),
                         !.code = IF k = 0 THEN Append(@, op)
                                  ELSE IF k = 1 THEN @ \o <<op, img[h.co + d.b + 2]>>
                                  ELSE @ \o <<op, Word(img, h.co + d.b + 1)>>]
Decode(img, h) ==
  FoldLeft(LAMBDA d, i : DecodeOne(img, h, d),
           [ok |-> TRUE, b |-> 0, code |-> <<>>, ip |-> <<>>],
           [i \in 1..h.n |-> i])

BranchesOK(code, ip) ==
  \A i \in 1..Len(ip) :
    LET o == ip[i] IN
    IsBranch(code[o + 1]) => code[o + 2] >= 0 /\ code[o + 2] < Len(ip)

RECURSIVE PowerAtLeast(_, _)
PowerAtLeast(p, n) == IF p >= n THEN p ELSE PowerAtLeast(2 * p, n)

\* memory is paged: pages of 64 bytes, 4 spare bytes behind the segment
PageSize == 64
NPages(size) == (size + 4 + PageSize - 1) \div PageSize
ByteAtLoad(img, h, a) == IF a < h.dl + h.ll THEN img[h.do + a + 1] ELSE 0
ZeroPage == [i \in 1..PageSize |-> 0]
InitMem(img, h, size) == TLCEval(
  [p \in 1..NPages(size) |->
     IF (p - 1) * PageSize >= h.dl + h.ll THEN ZeroPage
     ELSE [i \in 1..PageSize |-> ByteAtLoad(img, h, (p - 1) * PageSize + i - 1)]])

\* which code words are instruction starts
StartMap(code, ip) == LET S == {ip[i] : i \in 1..Len(ip)} IN [w \in 1..Len(code) |-> (w - 1) \in S]

\* The complete loader: [ok |-> FALSE] or the loaded machine.
Load(img, len) ==
  IF ~HeaderOK(img, len) THEN [ok |-> FALSE]
  ELSE LET h == Header(img)
           d == IF h.n > h.cl THEN [ok |-> FALSE]
                ELSE Decode(img, h)
       IN IF ~d.ok THEN [ok |-> FALSE]
          ELSE IF ~BranchesOK(d.code, d.ip) THEN [ok |-> FALSE]
          ELSE LET size == PowerAtLeast(1, h.dl + h.ll + h.bl) IN
               [ok |-> TRUE, code |-> d.code, ip |-> d.ip, clen |-> h.cl,
                start |-> StartMap(d.code, d.ip),
                size |-> size, mem |-> InitMem(img, h, size),
                ra |-> <<>>, ps |-> size]

------------------------------ (* memory *) ---------------------------------
Mask(v, a) == a % v.size                        \* a & (size - 1), any Word32 a
Peek(v, a) == v.mem[(a \div PageSize) + 1][(a % PageSize) + 1]
Poke(v, a, b) == [v EXCEPT !.mem[(a \div PageSize) + 1][(a % PageSize) + 1] = b]
\* return address records that a write to a..a+n-1 destroys
Touch(v, a, n) ==
  IF \E x \in DOMAIN v.ra : x > a - 4 /\ x < a + n
  THEN [v EXCEPT !.ra = [x \in {y \in DOMAIN v.ra : y <= a - 4 \/ y >= a + n} |-> v.ra[x]]]
  ELSE v

\* a is already masked; accesses may reach the spare bytes
Load1(v, a) == Peek(v, a)
Load2(v, a) == LET b0 == Peek(v, a)  b1 == Peek(v, a + 1) IN
               IF b0 = POISON \/ b1 = POISON THEN POISON ELSE b0 + 256 * b1
Load4(v, a) == LET b0 == Peek(v, a)      b1 == Peek(v, a + 1)
                   b2 == Peek(v, a + 2)  b3 == Peek(v, a + 3) IN
               IF b0 = POISON \/ b1 = POISON \/ b2 = POISON \/ b3 = POISON THEN POISON
               ELSE FromBytes(b0, b1, b2, b3)
Store1(v, a, x) == Poke(Touch(v, a, 1), a, IF x = POISON THEN POISON ELSE Byte0(x))
Store2(v, a, x) ==
  IF x = POISON THEN Poke(Poke(Touch(v, a, 2), a, POISON), a + 1, POISON)
  ELSE Poke(Poke(Touch(v, a, 2), a, Byte0(x)), a + 1, Byte1(x))
Put4(v, a, b0, b1, b2, b3) == 
  IF a % PageSize <= PageSize - 4
  THEN LET i == a % PageSize IN
       [v EXCEPT !.mem[(a \div PageSize) + 1] =
          [@ EXCEPT ![i + 1] = b0, ![i + 2] = b1, ![i + 3] = b2, ![i + 4] = b3]]
  ELSE Poke(Poke(Poke(Poke(v, a, b0), a + 1, b1), a + 2, b2), a + 3, b3)
Store4(v, a, x) ==
  IF x = POISON THEN Put4(Touch(v, a, 4), a, POISON, POISON, POISON, POISON)
  ELSE Put4(Touch(v, a, 4), a, Byte0(x), Byte1(x), Byte2(x), Byte3(x))
\* remember a return address (opaque to the program)
SaveRA(v, a, pc) ==
  LET w == Store4(v, a, POISON) IN [w EXCEPT !.ra = (a :> pc) @@ @]
\* -2: not a return address the machine wrote
GetRA(v, a) ==
  IF a \in DOMAIN v.ra /\ \A i \in 0..3 : Peek(v, a + i) = POISON THEN v.ra[a] ELSE -2

\* n bytes from s to d; overlapping copies leave unspecified bytes
CopyBytes(v, src, d, s, n) ==
  FoldLeft(LAMBDA w, i : Poke(w, d + i - 1, Peek(src, s + i - 1)), v, [i \in 1..n |-> i])
PoisonBytes(v, d, n) == FoldLeft(LAMBDA w, i : Poke(w, d + i - 1, POISON), v, [i \in 1..n |-> i])
BlockCopy(v, d, s, n) ==
  IF n = 0 \/ d = s THEN v
  ELSE IF d < s + n /\ s < d + n THEN PoisonBytes(Touch(v, d, n), d, n)
  ELSE CopyBytes(Touch(v, d, n), v, d, s, n)
\* range [a, a+n) (a, n Word32, unsigned): "in", "out", or "edge" when it ends
\* exactly at the end of the segment, which implementations may refuse
RangeStatus(v, a, n) ==
  IF a < 0 \/ n < 0 \/ a >= v.size \/ n > v.size - a THEN "out"
  ELSE IF n = v.size - a THEN "edge" ELSE "in"

------------------------------ (* frames *) ---------------------------------
NSlots == 256
MaxMainArgs == 13
Beef == 48879                                 \* sentinel in slot 0
FreshStack == TLCEval([i \in 1..NSlots |-> IF i = 1 THEN Beef ELSE POISON])

\* activation record of one VM_Call on machine i: the machine after building
\* the entry frame, and the frame
StoreArgs(v, ps, args) ==
  FoldLeft(LAMBDA w, i : Store4(w, Mask(w, Add(ps, 4 + 4 * i)), args[i]), v,
           [i \in 1..MaxMainArgs |-> i])
EntryPS(v) == Add(v.ps, -60)
EnterVM(v, args) ==
  LET ps == EntryPS(v)
      v1 == StoreArgs(v, ps, args)
      v2 == Store4(v1, Mask(v1, Add(ps, 4)), POISON)
  IN SaveRA(v2, Mask(v2, ps), -1)
NewFrame(i, v) == [vm |-> i, pc |-> 0, ps |-> EntryPS(v), os |-> FreshStack,
                   ofs |-> 0, entry |-> v.ps, ret |-> FALSE]

Dec(o) == IF o = 0 THEN NSlots - 1 ELSE o - 1
Inc(o) == IF o = NSlots - 1 THEN 0 ELSE o + 1
Top(f) == f.os[f.ofs + 1]
Snd(f) == f.os[Dec(f.ofs) + 1]

------------------------- (* instruction effects *) --------------------------
(* A step is a record with tag t:                                           *)
(*   "n"   normal step            f, v                                      *)
(*   "e"   error ends the call    codes (any of), v                         *)
(*   "r"   like "n", after reporting one of codes                           *)
(*   "er"  either "r" (nothing copied) or "n": v = copied, v0 = not copied  *)
(*   "s"   system call            f, v, num, args                           *)
(*   "x"   end of the call        val, ok                                   *)
(*   "u"   unspecified from here                                            *)
N(f, v) == [t |-> "n", f |-> f, v |-> v]
Err(codes, v) == [t |-> "e", codes |-> codes, v |-> v]
U == [t |-> "u"]

\* replace the top / pop one and replace / push
Top1(f, x) == [f EXCEPT !.os[f.ofs + 1] = x, !.pc = @ + 1]
Bin(f, x) == LET o == Dec(f.ofs) IN [f EXCEPT !.os[o + 1] = x, !.ofs = o, !.pc = @ + 1]
Push(f, x, k) == LET o == Inc(f.ofs) IN [f EXCEPT !.os[o + 1] = x, !.ofs = o, !.pc = @ + k]
Drop2(f, pc) == [f EXCEPT !.ofs = Dec(Dec(@)), !.pc = pc]
Drop1(f, pc) == [f EXCEPT !.ofs = Dec(@), !.pc = pc]

Nan(x) == IF x = QNaN THEN POISON ELSE x
\* a NaN operand makes the result "some NaN"
FRes(x, y, r) == IF IsNaN(x) \/ IsNaN(y) THEN POISON ELSE Nan(r)

\* arithmetic on r1 (second) and r0 (top); never called with POISON, nor with
\* a zero divisor
Arith(op, r1, r0) ==
  CASE op = 38 -> Add(r1, r0)
    [] op = 39 -> Sub(r1, r0)
    [] op = 40 -> DivS(r1, r0)
    [] op = 41 -> DivU(r1, r0)
    [] op = 42 -> ModS(r1, r0)
    [] op = 43 -> ModU(r1, r0)
    [] op = 44 -> Mul(r1, r0)
    [] op = 45 -> Mul(r1, r0)
    [] op = 46 -> BAnd(r1, r0)
    [] op = 47 -> BOr(r1, r0)
    [] op = 48 -> BXor(r1, r0)
    [] op = 50 -> IF r0 < 0 \/ r0 > 31 THEN POISON ELSE Shl(r1, r0)
    [] op = 51 -> IF r0 < 0 \/ r0 > 31 THEN POISON ELSE ShrS(r1, r0)
    [] op = 52 -> IF r0 < 0 \/ r0 > 31 THEN POISON ELSE ShrU(r1, r0)
    [] op = 54 -> FRes(r1, r0, FAdd(r1, r0))
    [] op = 55 -> FRes(r1, r0, FSub(r1, r0))
    [] op = 56 -> FRes(r1, r0, FDiv(r1, r0))
    [] op = 57 -> FRes(r1, r0, FMul(r1, r0))
IsDivision(op) == op >= 40 /\ op <= 43
Unary(op, x) ==
  CASE op = 35 -> Sex8(x)
    [] op = 36 -> Sex16(x)
    [] op = 37 -> Neg(x)
    [] op = 49 -> BNot(x)
    [] op = 53 -> FNeg(x)
    [] op = 58 -> FFromInt(x)
    [] op = 59 -> IF FIntOK(x) THEN FToInt(x) ELSE POISON
IsUnary(op) == op \in {35, 36, 37, 49, 53, 58, 59}

Taken(op, r1, r0) ==
  CASE op = 11 -> r1 = r0       [] op = 12 -> r1 # r0
    [] op = 13 -> r1 < r0       [] op = 14 -> r1 <= r0
    [] op = 15 -> r1 > r0       [] op = 16 -> r1 >= r0
    [] op = 17 -> LtU(r1, r0)   [] op = 18 -> LeU(r1, r0)
    [] op = 19 -> LtU(r0, r1)   [] op = 20 -> LeU(r0, r1)
    [] op = 21 -> FEq(r1, r0)   [] op = 22 -> FNe(r1, r0)
    [] op = 23 -> FLt(r1, r0)   [] op = 24 -> FLe(r1, r0)
    [] op = 25 -> FGt(r1, r0)   [] op = 26 -> FGe(r1, r0)

OffEnd == {E_PC, E_BADOP}        \* execution ran past the last instruction

\* arguments of a system call: 15 words above the two linkage words
SysArgs(v, ps) == [i \in 1..15 |-> Load4(v, Mask(v, Add(ps, 4 + 4 * i)))]

DoCall(f, v) ==
  LET t == Top(f)
      v1 == SaveRA(v, Mask(v, f.ps), f.pc + 1)
      f1 == Drop1(f, f.pc + 1)
  IN IF t = POISON THEN U
     ELSE IF t < 0
     THEN LET v2 == Store4(v1, Mask(v, Add(f.ps, 4)), POISON)
              \* the return address is kept by the machine while the host runs
          IN [t |-> "s", f |-> f1, v |-> [v2 EXCEPT !.ps = Add(f.ps, -4)],
              num |-> -1 - t, args |-> SysArgs(v2, f.ps)]
     ELSE IF t >= Len(v.ip) THEN Err({E_PC}, v1)
     ELSE N([f1 EXCEPT !.pc = v.ip[t + 1]], v1)

DoLeave(f, v, n) ==
  LET ps == Add(f.ps, n)
      a == Mask(v, ps)
      ra == GetRA(v, a)
      w == Load4(v, a)
      f1 == [f EXCEPT !.ps = ps]
  IN IF ra = -1
     THEN [t |-> "x", f |-> f1, v |-> v, val |-> Top(f),
           \* the operand stack must hold exactly the result
           ok |-> IF f.ofs # 1 THEN "no"
                  ELSE IF f.os[1] = POISON THEN "any"
                  ELSE IF f.os[1] = Beef THEN "yes" ELSE "no"]
     ELSE IF ra >= 0 THEN N([f1 EXCEPT !.pc = ra], v)
     ELSE IF w = POISON THEN U
     ELSE IF w < -1 \/ w >= v.clen THEN Err({E_PC}, v)
     ELSE U                     \* a forged, plausible return address

DoBlockCopy(f, v, n) ==
  LET d == Snd(f)  s == Top(f)  f1 == Drop2(f, f.pc + 2) IN
  IF d = POISON \/ s = POISON THEN U
  ELSE LET rd == RangeStatus(v, d, n)  rs == RangeStatus(v, s, n) IN
       IF rd = "out" \/ rs = "out"
       THEN [t |-> "r", f |-> f1, v |-> v, codes |-> {E_BLOCKCOPY}]
       ELSE IF rd = "edge" \/ rs = "edge"
       THEN [t |-> "er", f |-> f1, v |-> BlockCopy(v, d, s, n), v0 |-> v, codes |-> {E_BLOCKCOPY}]
       ELSE N(f1, BlockCopy(v, d, s, n))

Exec(f, v, op, w) ==
  IF op >= 38 /\ op # 49 /\ op # 53 /\ op < 58 THEN
    LET r1 == Snd(f)  r0 == Top(f) IN
    IF IsDivision(op) /\ r0 = POISON THEN U
    ELSE IF IsDivision(op) /\ r0 = 0 THEN [t |-> "ed", v |-> v]
    ELSE IF r0 = POISON \/ r1 = POISON THEN N(Bin(f, POISON), v)
    ELSE N(Bin(f, Arith(op, r1, r0)), v)
  ELSE IF IsUnary(op) THEN
    N(Top1(f, IF Top(f) = POISON THEN POISON ELSE Unary(op, Top(f))), v)
  ELSE IF IsBranch(op) THEN
    LET r1 == Snd(f)  r0 == Top(f) IN
    IF r1 = POISON \/ r0 = POISON THEN U
    ELSE N(Drop2(f, IF Taken(op, r1, r0) THEN v.ip[w + 1] ELSE f.pc + 2), v)
  ELSE
  CASE op = 0 -> Err({E_BADOP} \cup (IF Debug THEN {E_PC} ELSE {}), v)
    [] op = 1 -> N([f EXCEPT !.pc = @ + 1], v)
    [] op = 2 -> N([f EXCEPT !.pc = @ + 1], v)
    [] op = 3 -> LET f1 == [f EXCEPT !.ps = Sub(@, w), !.pc = @ + 2] IN
                 \* a debug build links frames through the second linkage word
                 N(f1, IF Debug THEN Store4(v, Mask(v, Add(f1.ps, 4)), POISON) ELSE v)
    [] op = 4 -> DoLeave(f, v, w)
    [] op = 5 -> DoCall(f, v)
    [] op = 6 -> LET o == Inc(f.ofs) IN
                 N([f EXCEPT !.ofs = o, !.pc = @ + 1, !.os[o + 1] = IF o = 0 THEN @ ELSE POISON], v)
    [] op = 7 -> N(Drop1(f, f.pc + 1), v)
    [] op = 8 -> N(Push(f, w, 2), v)
    [] op = 9 -> N(Push(f, Add(w, f.ps), 2), v)
    [] op = 10 -> LET t == Top(f) IN
                  IF t = POISON THEN U
                  ELSE IF t < 0 \/ t >= Len(v.ip) THEN Err({E_PC}, v)
                  ELSE N(Drop1(f, v.ip[t + 1]), v)
    [] op \in {27, 28, 29} ->
         LET t == Top(f) IN
         IF t = POISON THEN U
         ELSE IF Debug /\ op = 29 /\ t % 4 # 0 THEN Err({E_LOAD4}, v)
         ELSE LET a == Mask(v, t) IN
              N(Top1(f, IF op = 27 THEN Load1(v, a) ELSE IF op = 28 THEN Load2(v, a) ELSE Load4(v, a)), v)
    [] op \in {30, 31, 32} ->
         LET t == Snd(f)  x == Top(f) IN
         IF t = POISON THEN U
         ELSE LET a == Mask(v, t) IN
              N(Drop2(f, f.pc + 1),
                IF op = 30 THEN Store1(v, a, x) ELSE IF op = 31 THEN Store2(v, a, x) ELSE Store4(v, a, x))
    [] op = 33 -> N(Drop1(f, f.pc + 2), Store4(v, Mask(v, Add(w, f.ps)), Top(f)))
    [] op = 34 -> DoBlockCopy(f, v, w)

\* one machine instruction
Instr(f, v) ==
  IF f.pc >= Len(v.code) THEN Err(OffEnd, v)
  ELSE IF Debug /\ f.pc + 1 >= v.clen /\ v.code[f.pc + 1] # 0 THEN Err(OffEnd, v)
  ELSE IF Debug /\ f.ps <= v.size - StackSize THEN Err({E_STACK_OVERFLOW}, v)
  ELSE IF Debug /\ f.ps % 4 # 0 THEN Err({E_MISALIGNED}, v)
  ELSE LET op == v.code[f.pc + 1]
           w == IF OperandLen(op) > 0 THEN v.code[f.pc + 2] ELSE 0
       IN Exec(f, v, op, w)

(* Design-level safety of a machine: what V02 and V03 claim, as invariants  *)
(* of the model itself.                                                     *)
FrameSafe(f, v) ==
  /\ f.ofs \in 0..NSlots - 1
  /\ f.pc >= 0
  /\ f.pc < Len(v.code) => v.start[f.pc + 1]
MachineSafe(v) ==
  /\ Len(v.mem) = NPages(v.size)
  /\ \A a \in DOMAIN v.ra : a >= 0 /\ a < v.size /\ v.ra[a] <= Len(v.code)
=============================================================================
