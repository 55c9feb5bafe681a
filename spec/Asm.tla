--------------------------------- MODULE Asm ---------------------------------
(* The assembler: from source files to an image, a map and a verdict.       *)
(*                                                                          *)
(* One pass over the source lines collects code, data, symbol definitions   *)
(* and references; then references are resolved.  One step of the state     *)
(* machine assembles one source line; the last step compares the outcome    *)
(* with what the real assembler produced (C.obs, and C.alts: other option   *)
(* settings, which must not matter).                                        *)
EXTENDS Word32, SequencesExt, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

---------------------------- (* lexical level *) -----------------------------
Ch(s, i) == SubSeq(s, i, i)
Printable == {Ch("!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~", i) : i \in 1..94}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [d \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = d]
MaxLine == 1024
Idx(s) == [i \in 1..Len(s) |-> i]

\* words of a line; a word that starts with ; begins a comment
TokStep(s, t, i) ==
  IF t.st = "comment" THEN t
  ELSE IF Ch(s, i) \in Printable
       THEN IF t.st = "word" THEN t
            ELSE IF Ch(s, i) = ";" THEN [t EXCEPT !.st = "comment"]
            ELSE [t EXCEPT !.st = "word", !.from = i]
       ELSE IF t.st = "word" THEN [t EXCEPT !.st = "gap", !.out = Append(@, SubSeq(s, t.from, i - 1))]
            ELSE t
Tokens(s) ==
  LET r == FoldLeft(LAMBDA t, i : TokStep(s, t, i), [st |-> "gap", from |-> 0, out |-> <<>>], Idx(s))
  IN IF r.st = "word" THEN Append(r.out, SubSeq(s, r.from, Len(s))) ELSE r.out

\* decimal numbers modulo 2^32, [ok, v]
Number(s) ==
  LET neg == Len(s) > 0 /\ Ch(s, 1) = "-"
      d == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      v == FoldLeft(LAMBDA a, i : IF Ch(d, i) \in Digits THEN Add(Mul(a, 10), DigitVal[Ch(d, i)]) ELSE a, 0, Idx(d))
  IN [ok |-> Len(d) > 0 /\ Len(d) < 16 /\ \A i \in 1..Len(d) : Ch(d, i) \in Digits,
      v |-> IF neg THEN Neg(v) ELSE v]

\* (number | symbol) { (+ | -) number }: [ok, sym, v]
SplitAt(s) == {i \in 2..Len(s) : Ch(s, i) \in {"+", "-"}}
Expr(s) ==
  LET cuts == SetToSortSeq(SplitAt(s), <)
      End(k) == IF k < Len(cuts) THEN cuts[k + 1] - 1 ELSE Len(s)
      head == IF cuts = <<>> THEN s ELSE SubSeq(s, 1, cuts[1] - 1)
      isnum == Ch(s, 1) \in Digits \cup {"-"}
      term(k) == Number(SubSeq(s, cuts[k] + 1, End(k)))
      rest == FoldLeft(LAMBDA a, k : IF Ch(s, cuts[k]) = "+" THEN Add(a, term(k).v) ELSE Sub(a, term(k).v), 0, Idx(cuts))
  IN [ok |-> (isnum => Number(head).ok) /\ Ch(s, 1) # "+" /\ \A k \in 1..Len(cuts) : term(k).ok /\ Ch(s, cuts[k] + 1) # "-",
      sym |-> IF isnum THEN "" ELSE head,
      v |-> IF isnum THEN Add(Number(head).v, rest) ELSE rest]

--------------------------- (* instruction names *) --------------------------
OpTable == [ BREAK |-> 2,
  CNSTF4 |-> 8, CNSTI4 |-> 8, CNSTP4 |-> 8, CNSTU4 |-> 8, CNSTI2 |-> 8, CNSTU2 |-> 8, CNSTI1 |-> 8, CNSTU1 |-> 8,
  ADDRGP4 |-> 8, ASGNB |-> 34,
  ASGNF4 |-> 32, ASGNI4 |-> 32, ASGNP4 |-> 32, ASGNU4 |-> 32, ASGNI2 |-> 31, ASGNU2 |-> 31, ASGNI1 |-> 30, ASGNU1 |-> 30,
  INDIRF4 |-> 29, INDIRI4 |-> 29, INDIRP4 |-> 29, INDIRU4 |-> 29, INDIRI2 |-> 28, INDIRU2 |-> 28, INDIRI1 |-> 27, INDIRU1 |-> 27,
  CVFI4 |-> 59, CVIF4 |-> 58, NEGF4 |-> 53, NEGI4 |-> 37,
  ADDF4 |-> 54, ADDI4 |-> 38, ADDP4 |-> 38, ADDP |-> 38, ADDU4 |-> 38, SUBF4 |-> 55, SUBI4 |-> 39, SUBP4 |-> 39, SUBU4 |-> 39,
  LSHI4 |-> 50, LSHU4 |-> 50, MODI4 |-> 42, MODU4 |-> 43, RSHI4 |-> 51, RSHU4 |-> 52,
  BANDI4 |-> 46, BANDU4 |-> 46, BCOMI4 |-> 49, BCOMU4 |-> 49, BORI4 |-> 47, BORU4 |-> 47, BXORI4 |-> 48, BXORU4 |-> 48,
  DIVF4 |-> 56, DIVI4 |-> 40, DIVU4 |-> 41, MULF4 |-> 57, MULI4 |-> 44, MULU4 |-> 45,
  EQF4 |-> 21, EQI4 |-> 11, EQU4 |-> 11, GEF4 |-> 26, GEI4 |-> 16, GEU4 |-> 20, GTF4 |-> 25, GTI4 |-> 15, GTU4 |-> 19,
  LEF4 |-> 24, LEI4 |-> 14, LEU4 |-> 18, LTF4 |-> 23, LTI4 |-> 13, LTU4 |-> 17, NEF4 |-> 22, NEI4 |-> 12, NEU4 |-> 12,
  JUMPV |-> 10 ]
Ignored == {"INDIRB", "CVII1", "CVII2", "CVIU4", "CVPU4", "CVUI4", "CVUP4", "CVUU4", "CVUU1", "CVUU2", "export", "import", "line", "file"}
Refused == {"CVFF4", "LOADB4", "LOADF4", "LOADI4", "LOADP4", "LOADU4"}
Sfx == {"F4", "I4", "P4", "U4"}
Calls == {"CALL" \o x : x \in Sfx \cup {"V", "B"}}
Args == {"ARG" \o x : x \in Sfx}
Rets == {"RET" \o x : x \in Sfx \cup {"V"}}
\* words beginning like a typed instruction of which only the type is strange
Prefix(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Loose(t) == \E p \in {"CALL", "ARG", "RET", "ADDRF", "ADDRL", "LABEL", "pop"} : Prefix(t, p)
HasOperand(op) == op \in {8, 34} \/ (op >= 11 /\ op <= 26)

------------------------------- (* assembling *) -----------------------------
(* a: [seg, n: instructions, code, data, lit: bytes, bss: length,           *)
(*     syms: key -> [seg, val], errs: lines with errors, refs: references,  *)
(*     loc, arg, ofs: current frame, obj: label key of the current object,  *)
(*     full: the object has data, oal: its alignment, nal: next alignment,  *)
(*     free: the source left the specified language]                        *)
NoObj == <<-2, "">>
Start == [seg |-> "code", n |-> 0, code |-> <<>>, data |-> <<0, 0, 0, 0>>, lit |-> <<>>, bss |-> 0,
          syms |-> [k \in {} |-> 0], errs |-> {}, refs |-> <<>>, loc |-> 0, arg |-> 0, ofs |-> 0,
          obj |-> NoObj, full |-> FALSE, oal |-> 1, nal |-> 1, free |-> FALSE]
SegLen(a, s) == CASE s = "code" -> Len(a.code) [] s = "data" -> Len(a.data) [] s = "lit" -> Len(a.lit) [] s = "bss" -> a.bss
Zeros(n) == [i \in 1..n |-> 0]
Grow(a, s, bytes) ==
  CASE s = "code" -> [a EXCEPT !.code = @ \o bytes] [] s = "data" -> [a EXCEPT !.data = @ \o bytes]
    [] s = "lit" -> [a EXCEPT !.lit = @ \o bytes] [] s = "bss" -> [a EXCEPT !.bss = @ + Len(bytes)]
Skip(a, s, n) == IF s = "bss" THEN [a EXCEPT !.bss = @ + n] ELSE Grow(a, s, Zeros(n))
Round(n, al) == ((n + al - 1) \div al) * al
AlignTo(a, s, al) == Skip(a, s, Round(SegLen(a, s), al) - SegLen(a, s))
MaxSeg == 10485760
Fail(a, w) == [a EXCEPT !.errs = @ \cup {w}]
Free(a) == [a EXCEPT !.free = TRUE]
Bytes4(x) == << Byte0(x), Byte1(x), Byte2(x), Byte3(x) >>
Key(name, f) == IF Ch(name, 1) = "$" THEN <<f, name>> ELSE <<-1, name>>

Define(a, name, f, s, val, w) ==
  IF Key(name, f) \in DOMAIN a.syms THEN Fail(a, w)
  ELSE [a EXCEPT !.syms = (Key(name, f) :> [seg |-> s, val |-> val]) @@ @]
\* start of a data object (key NoObj: none)
Begin(a, key) == [a EXCEPT !.obj = key, !.full = FALSE, !.oal = a.nal, !.nal = 1]
\* the next datum of the current object belongs into segment s
Place(a, s) ==
  LET stay == a.seg = s \/ (a.full /\ a.seg \in {"data", "lit"})
      b == AlignTo([a EXCEPT !.seg = s], s, a.oal)
      c == IF a.obj \in DOMAIN a.syms THEN [b EXCEPT !.syms[a.obj] = [seg |-> s, val |-> SegLen(b, s)]] ELSE b
  IN [(IF stay THEN a ELSE c) EXCEPT !.full = TRUE]
\* a reference: the word at offset off of segment s is expression e (+ add)
Refer(a, s, e, add, f, w, rnd) ==
  Grow([a EXCEPT !.refs = Append(@, [seg |-> s, off |-> SegLen(a, s), sym |-> e.sym, key |-> IF e.sym = "" THEN NoObj ELSE Key(e.sym, f),
                                     v |-> Add(e.v, add), at |-> w, rnd |-> rnd])], s, Zeros(4))
Op(a, op) == Grow([a EXCEPT !.n = @ + 1], "code", <<op>>)
OpWord(a, op, x) == Grow([a EXCEPT !.n = @ + 1], "code", <<op>> \o Bytes4(x))
OpExpr(a, op, s, add, f, w) ==
  LET e == Expr(s) IN
  IF s = "" \/ ~e.ok THEN Free(a) ELSE Refer(Op(a, op), "code", e, add, f, w, op = 34)
Frame(a) == 8 + a.loc + a.arg

Arg(t, i) == IF i <= Len(t) THEN t[i] ELSE ""
Num(t, i) == IF Arg(t, i) = "" THEN [ok |-> TRUE, v |-> 0] ELSE Number(t[i])

Statement(a, t, f, w) ==
  LET m == t[1] IN
  CASE m \in DOMAIN OpTable ->
       LET op == OpTable[m]
           x == IF op \in {58, 59} THEN "" ELSE Arg(t, 2)
       IN IF (x # "") # HasOperand(op) THEN Fail(a, w)
          ELSE IF x = "" THEN Op(a, op) ELSE OpExpr(a, op, x, 0, f, w)
    [] m = "CVII4" ->
       IF Arg(t, 2) = "1" THEN Op(a, 35) ELSE IF Arg(t, 2) = "2" THEN Op(a, 36)
       ELSE IF Arg(t, 2) = "" \/ Ch(t[2], 1) \notin {"1", "2"} THEN Fail(a, w) ELSE Free(a)
    [] m \in Ignored -> a
    [] m \in Refused -> Fail(a, w)
    [] m \in Calls -> [Op(a, 5) EXCEPT !.ofs = 0]
    [] m \in Args -> IF 8 + a.ofs >= 256 THEN Fail(a, w)
                     ELSE [Grow([a EXCEPT !.n = @ + 1], "code", <<33, 8 + a.ofs>>) EXCEPT !.ofs = @ + 4]
    [] m \in Rets -> OpWord(a, 4, Frame(a))
    [] m = "pop" -> Op(a, 7)
    [] m = "ADDRFP4" -> OpExpr(a, 9, Arg(t, 2), 8 + Frame(a), f, w)
    [] m = "ADDRLP4" -> OpExpr(a, 9, Arg(t, 2), 8 + a.arg, f, w)
    [] m = "proc" ->
       LET l == Num(t, 3)  g == Num(t, 4)
           b == [Define(a, Arg(t, 2), f, a.seg, a.n, w) EXCEPT !.loc = Round(l.v, 4), !.arg = Round(g.v, 4)]
       IN IF Arg(t, 2) = "" \/ ~l.ok \/ ~g.ok \/ l.v < 0 \/ g.v < 0 \/ l.v > 1000000 \/ g.v > 1000000 \/ a.seg # "code" THEN Free(a)
          ELSE IF Frame(b) >= 32767 THEN Fail(OpWord(b, 3, 0), w) ELSE OpWord(b, 3, Frame(b))
    [] m = "endproc" -> OpWord(Op(a, 6), 4, Frame(a))
    [] m = "address" ->
       LET e == Expr(Arg(t, 2))  b == Place(a, "data") IN
       IF Arg(t, 2) = "" \/ ~e.ok THEN Free(a) ELSE Refer(b, b.seg, e, 0, f, w, FALSE)
    [] m \in {"code", "data", "lit", "bss"} -> Begin([a EXCEPT !.seg = m], NoObj)
    [] m = "equ" ->
       IF Arg(t, 2) = "" \/ ~Num(t, 3).ok THEN Free(a)
       ELSE Define(a, t[2], f, "code", Num(t, 3).v, w)
    [] m = "align" ->
       LET v == Num(t, 2) IN
       IF ~v.ok \/ a.seg = "code" THEN Free(a)
       ELSE IF \A k \in 0..23 : v.v # Pow2[k] THEN Fail(a, w)
       ELSE [AlignTo(a, a.seg, v.v) EXCEPT !.nal = v.v]
    [] m = "skip" ->
       LET v == Num(t, 2) IN
       IF ~v.ok \/ a.seg = "code" THEN Free(a)
       ELSE IF v.v < 0 \/ v.v > MaxSeg - SegLen(a, a.seg) THEN Fail(a, w)
       ELSE IF a.seg # "bss" /\ v.v > 100000 THEN Free(a)
       ELSE [Skip(a, a.seg, v.v) EXCEPT !.full = TRUE]
    [] m = "byte" ->
       LET n == Num(t, 2)  v == Num(t, 3) IN
       IF ~n.ok \/ ~v.ok THEN Free(a)
       ELSE IF n.v = 1 THEN LET b == Place(a, "lit") IN Grow(b, b.seg, <<Byte0(v.v)>>)
       ELSE IF n.v = 4 THEN LET b == Place(a, "data") IN Grow(b, b.seg, Bytes4(v.v))
       ELSE IF n.v = 2 THEN Fail(a, w) ELSE Free(a)
    [] m = "LABELV" ->
       IF Arg(t, 2) = "" THEN Free(a)
       ELSE Begin(Define(a, t[2], f, a.seg, IF a.seg = "code" THEN a.n ELSE SegLen(a, a.seg), w), Key(t[2], f))
    [] OTHER -> IF Loose(m) THEN Free(a) ELSE Fail(a, w)

Line(a, s, f, w) ==
  IF Len(s) >= MaxLine THEN IF Ch(s, 1) = ";" THEN a ELSE Fail(a, w)
  ELSE LET t == Tokens(s) IN IF t = <<>> THEN a ELSE Statement(a, t, f, w)

--------------------------------- (* linking *) ------------------------------
StackLen == 65536
Aligned(a) == AlignTo(AlignTo(AlignTo(AlignTo(a, "code", 4), "data", 4), "lit", 4), "bss", 4)
Base(a, s) == CASE s \in {"code", "data"} -> 0 [] s = "lit" -> Len(a.data) [] s = "bss" -> Len(a.data) + Len(a.lit)
Undefined(a) == {i \in 1..Len(a.refs) : a.refs[i].sym # "" /\ a.refs[i].key \notin DOMAIN a.syms}
RefVal(a, r) ==
  LET x == IF r.sym = "" THEN r.v
           ELSE Add(r.v, Add(Base(a, a.syms[r.key].seg), a.syms[r.key].val))
  IN IF r.rnd THEN BAnd(Add(x, 3), -4) ELSE x
Patch(a, s) ==
  LET img == CASE s = "code" -> a.code [] s = "data" -> a.data [] s = "lit" -> a.lit
      Rs == {i \in 1..Len(a.refs) : a.refs[i].seg = s}
      at == [i \in {a.refs[j].off : j \in Rs} |-> CHOOSE j \in Rs : a.refs[j].off = i]
      vals == [o \in DOMAIN at |-> RefVal(a, a.refs[at[o]])]
      own == UNION {{o, o + 1, o + 2, o + 3} : o \in DOMAIN at}
      From(k) == CHOOSE o \in {k - 3, k - 2, k - 1, k} : o \in DOMAIN at
      ByteAt(k) == LET o == From(k)  x == vals[o] IN
                   CASE k = o -> Byte0(x) [] k = o + 1 -> Byte1(x) [] k = o + 2 -> Byte2(x) [] k = o + 3 -> Byte3(x)
  IN [k \in 1..Len(img) |-> IF k - 1 \in own THEN ByteAt(k - 1) ELSE img[k]]
TooBig(a) == 32 + Len(a.code) + Len(a.data) + Len(a.lit) > 4194304 \/ a.bss + StackLen > MaxSeg
Image(a) ==
  Bytes4(309466180) \o Bytes4(a.n) \o Bytes4(32) \o Bytes4(Len(a.code)) \o Bytes4(32 + Len(a.code)) \o
  Bytes4(Len(a.data)) \o Bytes4(Len(a.lit)) \o Bytes4(a.bss + StackLen) \o
  Patch(a, "code") \o Patch(a, "data") \o Patch(a, "lit")
SegNo(s) == CASE s = "code" -> 0 [] s = "data" -> 1 [] s = "lit" -> 2 [] s = "bss" -> 3
Globals(a) ==
  {<<SegNo(a.syms[k].seg), a.syms[k].val, k[2]>> : k \in {x \in DOMAIN a.syms : x[1] = -1}}
  \cup {<<3, a.bss, "_stackStart">>, <<3, a.bss + StackLen, "_stackEnd">>}
StackNames == {<<-1, "_stackStart">>, <<-1, "_stackEnd">>}
MapOK(a, m) ==
  /\ Len(m) = Cardinality(Globals(a)) /\ {m[i] : i \in 1..Len(m)} = Globals(a)
  /\ \A i \in 1..Len(m) - 1 : m[i][1] < m[i + 1][1] \/ (m[i][1] = m[i + 1][1] /\ m[i][2] <= m[i + 1][2])

\* o: [rc: exit code (negative: killed, timed out), image: bytes or <<>>,
\*     map: <<seg, value, name>> lines, hasmap, diag: lines named in messages]
HardErr(a) == a.errs # {} \/ TooBig(a) \/ StackNames \cap DOMAIN a.syms # {}
Verdict(a0, o) ==
  LET a == Aligned(a0)
      und == Undefined(a)
      alive == o.rc >= 0 /\ o.rc < 126
      uses(x) == {a.refs[i].at : i \in {j \in und : a.refs[j].key = x}}
      may == a.errs \cup {a.refs[i].at : i \in und}
      rep == {o.diag[i] : i \in 1..Len(o.diag)}
  IN IF ~alive THEN "crashed"
     ELSE IF a.free THEN "free"
     ELSE IF HardErr(a) \/ und # {}
     THEN IF o.rc = 0 THEN "error not reported by the exit status"
          ELSE IF o.image # <<>> THEN "image written in spite of errors"
          ELSE IF ~(a.errs \subseteq rep) THEN "error not reported"
          ELSE IF \E i \in und : uses(a.refs[i].key) \cap rep = {} THEN "undefined symbol not reported"
          ELSE IF ~(rep \subseteq may) /\ ~TooBig(a) /\ StackNames \cap (DOMAIN a.syms \cup {a.refs[i].key : i \in und}) = {} THEN "report without an error"
          ELSE "refused"
     ELSE IF o.rc # 0 THEN "valid program refused"
     ELSE IF rep # {} THEN "report without an error"
     ELSE IF o.image # Image(a) THEN "wrong image"
     ELSE IF o.hasmap /\ ~MapOK(a, o.map) THEN "wrong map"
     ELSE IF ~o.hasmap /\ o.map # <<>> THEN "map without request"
     ELSE "built"
Fine == {"free", "refused", "built"}

\* what the loader shows of an image: [tried, ok, mem: data and literals,
\* mask: highest address, dirty: non-zero bytes elsewhere]
LoadOK(a0, l) ==
  LET a == Aligned(a0) IN
  (l.tried /\ a.n > 0) => /\ l.ok /\ l.mem = Patch(a, "data") \o Patch(a, "lit") /\ l.dirty = 0
                          /\ l.mask >= Len(a.data) + Len(a.lit) + a.bss + StackLen - 1

------------------------------ (* state machine *) ---------------------------
VARIABLES cid, fi, li, a, out, step
vars == <<cid, fi, li, a, out, step>>
C == Cases[cid]
Init == cid \in 1..Len(Cases) /\ fi = 1 /\ li = 1 /\ a = Start /\ out = "" /\ step = 0
Next ==
  \/ /\ out = "" /\ fi <= Len(C.files)
     /\ \E b \in {IF li <= Len(C.files[fi]) THEN Line(a, C.files[fi][li], fi, <<fi, li>>) ELSE a} : a' = b
     /\ IF li < Len(C.files[fi]) THEN fi' = fi /\ li' = li + 1 ELSE fi' = fi + 1 /\ li' = 1
     /\ step' = step + 1 /\ UNCHANGED <<cid, out>>
  \/ /\ out = "" /\ fi > Len(C.files)
     /\ out' = IF C.missing
               THEN (IF C.obs.rc > 0 /\ C.obs.rc < 126 /\ C.obs.image = <<>> /\ C.obs.said THEN "refused" ELSE "unreadable input")
               ELSE LET v == Verdict(a, C.obs) IN
                    IF v \notin Fine THEN v
                    ELSE IF v = "built" /\ ~LoadOK(a, C.load) THEN "loader disagrees"
                    ELSE IF \E k \in 1..Len(C.alts) : C.alts[k] # C.obs.digest THEN "options change the output"
                    ELSE v
     /\ PrintT(<<out', cid>>)
     /\ step' = step + 1 /\ UNCHANGED <<cid, fi, li, a>>
  \/ out # "" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<cid, step>>
Conforms == out \in Fine \cup {""}
\* properties of the specification itself
LayoutOK == \A k \in DOMAIN a.syms : a.syms[k].seg # "code" => a.syms[k].val <= SegLen(a, a.syms[k].seg)
Shown == [case |-> cid, name |-> C.name, file |-> fi, line |-> li, out |-> out, errs |-> a.errs, n |-> a.n,
          expected |-> IF out # "" /\ ~C.missing /\ ~a.free /\ a.errs = {} /\ Undefined(Aligned(a)) = {} THEN Image(Aligned(a)) ELSE <<>>,
          globals |-> IF out = "wrong map" THEN Globals(Aligned(a)) ELSE {}]
=============================================================================
