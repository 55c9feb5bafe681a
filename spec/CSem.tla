--------------------------------- MODULE CSem --------------------------------
(* The meaning of C programs (the language lcc accepts, on the bytecode     *)
(* target), as an abstract machine over syntax trees: layout of types,      *)
(* typing, conversions, expressions, statements, calls, initialisers.       *)
(*                                                                          *)
(* A case is a program (types, variables, functions, syntax tree nodes) and *)
(* C.obs, the words the compiled program passed to out() when it ran on the *)
(* virtual machine, followed by the result of its main function.            *)
(*                                                                          *)
(* Memory is a sequence of objects, an object a sequence of bytes (-1:      *)
(* indeterminate).  The address of byte k of object o is o * 2^16 + k.      *)
(* A value is <<w>> (word w), <<>> (indeterminate) or <<0, 0>> (anything    *)
(* may happen: undefined behaviour, the rest of the run is not judged).     *)
EXTENDS Float32, SequencesExt, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid,    \* case
          st,     \* static facts: layout, types and purity of nodes, parents
          pc,     \* <<statement, phase>>
          ctl,    \* pending expression work, last element first
          vs,     \* value stack
          mem,    \* objects
          env,    \* variable -> address, for automatic variables
          frames, \* suspended callers
          li,     \* observations matched
          out,    \* verdict, "" while running
          step
vars == <<cid, st, pc, ctl, vs, mem, env, frames, li, out, step>>
C == Cases[cid]
T == C.types
N == C.nodes

Wild == <<0, 0>>
Indet == <<>>
tChar == 1  tUChar == 2  tShort == 3  tUShort == 4  tInt == 5  tUInt == 6  tFloat == 7  tVoid == 8
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Idx(s) == [i \in 1..Len(s) |-> i]
Nat0(n) == [i \in 1..n |-> i]
RoundUp(n, a) == ((n + a - 1) \div a) * a

-------------------------------- (* layout *) --------------------------------
\* fields are [t, w]: w = -1 ordinary, otherwise bit-field of w bits (0: close the unit)
\* end: bytes used so far; unit, bits: open bit-field unit and its used bits (unit = -1: none)
PlaceField(L, union, s, f) ==
  LET e0 == IF union THEN 0 ELSE s.end
      fresh == union \/ s.unit < 0 \/ s.bits + f.w > 32
      al == IF f.w >= 0 THEN 4 ELSE L[f.t].al
      u == IF f.w > 0 /\ ~fresh THEN s.unit ELSE RoundUp(e0, al)
      b == IF f.w > 0 /\ ~fresh THEN s.bits ELSE 0
      e == IF f.w < 0 THEN u + L[f.t].sz ELSE IF f.w = 0 THEN u ELSE u + (b + f.w + 7) \div 8
  IN [end |-> e, unit |-> IF f.w > 0 THEN u ELSE -1, bits |-> b + f.w, sz |-> IF e > s.sz THEN e ELSE s.sz,
      al |-> IF al > s.al THEN al ELSE s.al, off |-> Append(s.off, u), sh |-> Append(s.sh, b)]
LayoutOf(ts) ==
  FoldLeft(LAMBDA L, t :
    Append(L,
      IF t.k = "int" THEN [sz |-> t.sz, al |-> t.sz, off |-> <<>>, sh |-> <<>>]
      ELSE IF t.k = "void" \/ t.k = "fun" THEN [sz |-> 0, al |-> 1, off |-> <<>>, sh |-> <<>>]
      ELSE IF t.k = "arr" THEN [sz |-> t.n * L[t.to].sz, al |-> L[t.to].al, off |-> <<>>, sh |-> <<>>]
      ELSE IF t.k \in {"rec", "uni"}
      THEN LET s == FoldLeft(LAMBDA x, f : PlaceField(L, t.k = "uni", x, f),
                             [end |-> 0, unit |-> -1, bits |-> 0, sz |-> 0, al |-> 4, off |-> <<>>, sh |-> <<>>], t.f)
           IN [sz |-> RoundUp(s.sz, s.al), al |-> s.al, off |-> s.off, sh |-> s.sh]
      ELSE [sz |-> 4, al |-> 4, off |-> <<>>, sh |-> <<>>]), <<>>, ts)

-------------------------------- (* typing *) --------------------------------
LvKinds == {"var", "deref", "ix", "fld", "arr"}
IncDec == {"++p", "--p", "p++", "p--"}
Arith == {"+", "-", "*", "/", "%", "&", "|", "^"}
Shifts == {"<<", ">>"}
Compare == {"<", ">", "<=", ">=", "==", "!="}
Binary == Arith \cup Shifts \cup Compare
Unary == {"neg", "plus", "bnot", "not", "cast"}
\* the type an operand of type t is promoted to
Promote(ts, t) == IF ts[t].k = "flt" THEN tFloat ELSE IF ts[t].k # "int" THEN t ELSE IF ts[t].sz = 4 /\ ~ts[t].sg THEN tUInt ELSE tInt
\* type a bit-field promotes to
PT(ts, ty, ns, n) ==
  LET x == ns[n] IN
  IF x.k \in {"fld", "arr"} /\ x.fw >= 0 THEN (IF ~ts[ty[n]].sg /\ x.fw = 32 THEN tUInt ELSE tInt) ELSE Promote(ts, ty[n])
Usual(a, b) == IF a = tFloat \/ b = tFloat THEN tFloat ELSE IF a = tUInt \/ b = tUInt THEN tUInt ELSE tInt
IsPtr(ts, t) == ts[t].k \in {"ptr", "arr"}
TypesOf(ts, vars_, ns) ==
  FoldLeft(LAMBDA ty, n :
    Append(ty,
      IF n.t # 0 THEN n.t
      ELSE IF n.k \in {"var", "str"} THEN vars_[n.v].t
      ELSE IF n.k \in {"neg", "plus", "bnot"} \cup Shifts THEN PT(ts, ty, ns, n.a)
      ELSE IF n.k \in {"not", "&&", "||"} \cup Compare THEN tInt
      ELSE IF n.k \in {"szt", "sze"} THEN tUInt
      ELSE IF n.k = "deref" THEN (IF ts[ty[n.a]].k = "fun" THEN ty[n.a] ELSE ts[ty[n.a]].to)
      ELSE IF n.k \in Arith THEN Usual(PT(ts, ty, ns, n.a), PT(ts, ty, ns, n.b))
      ELSE IF n.k = "?:" THEN Usual(PT(ts, ty, ns, n.b), PT(ts, ty, ns, n.c))
      ELSE IF n.k = "," THEN ty[n.b]
      ELSE IF n.k \in {"=", "op="} \cup IncDec THEN ty[n.a]
      ELSE IF n.k = "ix" THEN ts[IF IsPtr(ts, ty[n.a]) THEN ty[n.a] ELSE ty[n.b]].to
      ELSE IF n.k = "fld" THEN ts[ty[n.a]].f[n.v].t
      ELSE IF n.k = "arr" THEN ts[ts[ty[n.a]].to].f[n.v].t
      ELSE IF n.k = "call" THEN (LET f == ty[n.a] IN ts[IF ts[f].k = "ptr" THEN ts[f].to ELSE f].to)
      ELSE 0), <<>>, ns)
Kids(n) == (IF n.a # 0 THEN <<n.a>> ELSE <<>>) \o (IF n.b # 0 THEN <<n.b>> ELSE <<>>) \o
           (IF n.c # 0 THEN <<n.c>> ELSE <<>>) \o (IF n.d # 0 THEN <<n.d>> ELSE <<>>) \o (IF n.k = "sinit" THEN <<>> ELSE n.l)
Stmts == {"expr", "blk", "if", "while", "do", "for", "switch", "case", "default", "brk", "cont", "goto", "label", "ret", "decl", "nop"}
EffectsOf(ns) ==
  FoldLeft(LAMBDA e, n : Append(e, n.k \in {"=", "op=", "call", "out"} \cup IncDec \/ (n.k # "sze" /\ \E k \in {Kids(n)[i] : i \in 1..Len(Kids(n))} : e[k])), <<>>, ns)
\* parent statement of every statement
ParentsOf(ns) ==
  FoldLeft(LAMBDA p, i :
    IF ns[i].k \in Stmts
    THEN FoldLeft(LAMBDA q, k : IF ns[k].k \in Stmts THEN [q EXCEPT ![k] = i] ELSE q, p, Kids(ns[i]))
    ELSE p, [i \in 1..Len(ns) |-> 0], Idx(ns))

------------------------------ (* conversions *) -----------------------------
\* the low bits of word w as a value of the integer type t
IntFit(ts, t, w) ==
  IF ts[t].k # "int" THEN w
  ELSE CASE ts[t].sz = 4 -> w
         [] ts[t].sz = 2 -> (IF ts[t].sg THEN Sex16(w) ELSE w % 65536)
         [] ts[t].sz = 1 -> (IF ts[t].sg THEN Sex8(w) ELSE w % 256)
FltToInt(t, w) ==
  IF IsNaN(w) THEN Indet
  ELSE IF T[t].sz = 4 /\ ~T[t].sg
  THEN IF FLe(w, -1082130432) THEN Indet                          \* <= -1
       ELSE IF FLt(w, 1325400064) THEN <<FToInt(w)>>              \* < 2^31
       ELSE IF FLt(w, 1333788672) THEN <<Add(FToInt(FSub(w, 1325400064)), MinInt)>> ELSE Indet
  ELSE IF ~FIntOK(w) THEN Indet
  ELSE LET i == FToInt(w) IN IF IntFit(T, t, i) = i THEN <<i>> ELSE Indet
\* value v of type from as a value of type to
Conv(from, to, v) ==
  IF Len(v) # 1 \/ to = tVoid THEN v
  ELSE LET f == T[from].k  k == T[to].k IN
       IF from = to THEN v
       ELSE IF k = "flt" THEN (IF f # "int" THEN v
                               ELSE IF T[from].sz < 4 \/ T[from].sg THEN <<FFromInt(v[1])>>
                               \* an unsigned number that no float holds becomes one of its two neighbours
                               ELSE LET w == FFromUInt(v[1]) IN IF FltToInt(from, w) = v THEN <<w>> ELSE Indet)
       ELSE IF k = "int" THEN (IF f = "flt" THEN FltToInt(to, v[1])
                               ELSE IF f = "int" THEN <<IntFit(T, to, v[1])>>
                               ELSE IF v[1] = 0 THEN v ELSE Indet)
       ELSE IF k = "ptr" /\ f = "int" THEN (IF v[1] = 0 THEN v ELSE Wild)
       ELSE v

--------------------------------- (* memory *) -------------------------------
Obj(a) == a \div 65536
Off(a) == a % 65536
Code0 == 30000      \* functions are the objects above this number
IsObj(m, a) == a >= 65536 /\ Obj(a) <= Len(m)
InObj(m, a, n) == IsObj(m, a) /\ Off(a) + n <= Len(m[Obj(a)])
Bytes(m, a, n) == SubSeq(m[Obj(a)], Off(a) + 1, Off(a) + n)
Load(m, t, a) ==
  LET ty == T[t] IN
  IF ty.k \in {"arr", "rec", "uni", "fun", "void"} THEN <<a>>
  ELSE LET n == st.lay[t].sz IN
       IF ~InObj(m, a, n) \/ a % n # 0 THEN Wild
       ELSE LET b == Bytes(m, a, n) IN
            IF T[t].k = "flt" /\ \A i \in 1..n : b[i] = -2 THEN <<QNaN>>
            ELSE IF \E i \in 1..n : b[i] < 0 THEN Indet
            ELSE IF n = 1 THEN <<IntFit(T, t, b[1])>>
            ELSE IF n = 2 THEN <<IntFit(T, t, b[1] + 256 * b[2])>>
            ELSE <<FromBytes(b[1], b[2], b[3], b[4])>>
ToBytes(v, n) == IF Len(v) # 1 THEN [i \in 1..n |-> -1]
                 ELSE SubSeq(<<Byte0(v[1]), Byte1(v[1]), Byte2(v[1]), Byte3(v[1])>>, 1, n)
\* -1 is a byte of unknown value, -2 a byte of some NaN
BytesOf(t, v, n) == IF T[t].k = "flt" /\ Len(v) = 1 /\ IsNaN(v[1]) THEN [i \in 1..n |-> -2] ELSE ToBytes(v, n)
Write(m, a, b) == [m EXCEPT ![Obj(a)] = SubSeq(@, 1, Off(a)) \o b \o SubSeq(@, Off(a) + Len(b) + 1, Len(@))]
\* stores return <<memory>> or <<>> (not inside an object)
Store(m, t, a, v) ==
  LET n == st.lay[t].sz IN
  IF Len(v) = 2 \/ ~InObj(m, a, n) THEN <<>>
  ELSE IF T[t].k \in {"rec", "uni", "arr"}
  THEN (IF Len(v) # 1 \/ ~InObj(m, v[1], n) THEN <<>> ELSE <<Write(m, a, Bytes(m, v[1], n))>>)
  ELSE IF a % n # 0 THEN <<>> ELSE <<Write(m, a, BytesOf(t, v, n))>>
\* bit-fields: unit at a, w bits from bit s
Mask(w) == IF w = 32 THEN -1 ELSE Sub(Shl(1, w), 1)
Extract(u, s, w, signed) == IF signed THEN ShrS(Shl(u, 32 - w - s), 32 - w) ELSE BAnd(ShrU(u, s), Mask(w))
LoadBits(m, a, s, w, signed) ==
  LET v == Load(m, tUInt, a) IN IF Len(v) = 1 THEN <<Extract(v[1], s, w, signed)>> ELSE v
StoreBits(m, a, s, w, v) ==
  LET nb == (s + w + 7) \div 8
      old == IF InObj(m, a, 4) THEN [i \in 1..4 |-> IF Bytes(m, a, 4)[i] < 0 THEN 0 ELSE Bytes(m, a, 4)[i]] ELSE <<>>
      u == FromBytes(old[1], old[2], old[3], old[4])
      x == BOr(BAnd(u, BNot(Shl(Mask(w), s))), Shl(BAnd(v[1], Mask(w)), s))
  IN IF Len(v) # 1 \/ old = <<>> THEN <<>> ELSE <<Write(m, a, ToBytes(<<x>>, nb))>>

------------------------------ (* operators *) -------------------------------
Bool(b) == <<IF b THEN 1 ELSE 0>>
SignedOver(op, x, y, r) ==
  CASE op = "+" -> (x >= 0) = (y >= 0) /\ (r >= 0) # (x >= 0)
    [] op = "-" -> (x >= 0) # (y >= 0) /\ (r >= 0) # (x >= 0)
    [] op = "*" -> x # 0 /\ (DivS(r, x) # y \/ (x = -1 /\ y = MinInt))
    [] OTHER -> FALSE
IntOp(op, sg, x, y) ==
  CASE op \in {"+", "-", "*"} ->
       (LET r == CASE op = "+" -> Add(x, y) [] op = "-" -> Sub(x, y) [] op = "*" -> Mul(x, y)
        IN IF sg /\ SignedOver(op, x, y, r) THEN Indet ELSE <<r>>)
    [] op = "/" -> IF y = 0 THEN Wild ELSE IF sg /\ x = MinInt /\ y = -1 THEN Indet ELSE <<IF sg THEN DivS(x, y) ELSE DivU(x, y)>>
    [] op = "%" -> IF y = 0 THEN Wild ELSE IF sg /\ x = MinInt /\ y = -1 THEN Indet ELSE <<IF sg THEN ModS(x, y) ELSE ModU(x, y)>>
    [] op = "&" -> <<BAnd(x, y)>>
    [] op = "|" -> <<BOr(x, y)>>
    [] op = "^" -> <<BXor(x, y)>>
FltOp(op, x, y) ==
  LET r == CASE op = "+" -> FAdd(x, y) [] op = "-" -> FSub(x, y) [] op = "*" -> FMul(x, y) [] op = "/" -> FDiv(x, y)
  IN <<r>>
Shift(op, sg, x, y) ==
  IF y < 0 \/ y > 31 THEN Indet
  ELSE IF op = "<<" THEN (LET r == Shl(x, y) IN IF sg /\ (x < 0 \/ ShrS(r, y) # x) THEN Indet ELSE <<r>>)
  ELSE <<IF sg THEN ShrS(x, y) ELSE ShrU(x, y)>>
Cmp(op, lt, eq) ==
  Bool(CASE op = "<" -> lt [] op = ">" -> ~lt /\ ~eq [] op = "<=" -> lt \/ eq [] op = ">=" -> ~lt [] op = "==" -> eq [] op = "!=" -> ~eq)
\* the order of a NaN and anything is not specified (lcc compiles "unless a >= b" for "if (a < b)")
FltCmp(op, x, y) ==
  IF Unord(x, y) /\ op \notin {"==", "!="} THEN Indet
  ELSE Bool(CASE op = "<" -> FLt(x, y) [] op = ">" -> FGt(x, y) [] op = "<=" -> FLe(x, y) [] op = ">=" -> FGe(x, y) [] op = "==" -> FEq(x, y) [] op = "!=" -> FNe(x, y))
\* pointer plus k elements of type t
PtrAdd(m, p, k, t) ==
  LET n == st.lay[t].sz  o == Off(p) IN
  IF ~IsObj(m, p) \/ n = 0 \/ k > 60000 \/ k < -60000 \/ (IF k < 0 THEN -k ELSE k) * n > 60000 THEN (IF k = 0 THEN <<p>> ELSE Wild)
  ELSE IF o + k * n < 0 \/ o + k * n > Len(m[Obj(p)]) THEN Wild ELSE <<p + k * n>>
PtrCmp(op, x, y) ==
  IF x # 0 /\ y # 0 /\ Obj(x) = Obj(y) THEN Cmp(op, Off(x) < Off(y), x = y)
  ELSE IF op \in {"==", "!="} THEN (IF x = 0 \/ y = 0 \/ (Off(x) = 0 /\ Off(y) = 0) THEN Cmp(op, FALSE, x = y) ELSE Indet)
  ELSE Indet
Both(x, y) == Len(x) = 1 /\ Len(y) = 1
Worst(x, y) == IF Len(x) = 2 \/ Len(y) = 2 THEN Wild ELSE Indet

\* binary operator on values x, y of types tx, ty (promoted), result type t
BinOp(m, op, tx, ty, t, x, y) ==
  IF ~Both(x, y) THEN (IF op \in {"/", "%"} /\ Len(y) = 0 /\ tx # tFloat /\ ty # tFloat THEN Wild ELSE Worst(x, y))
  ELSE IF IsPtr(T, tx) \/ IsPtr(T, ty) \/ T[tx].k = "fun" \/ T[ty].k = "fun"
  THEN CASE op = "+" -> IF IsPtr(T, tx) THEN PtrAdd(m, x[1], y[1], T[tx].to) ELSE PtrAdd(m, y[1], x[1], T[ty].to)
         [] op = "-" -> (IF ~IsPtr(T, ty) THEN PtrAdd(m, x[1], Neg(y[1]), T[tx].to)
                         ELSE IF Obj(x[1]) # Obj(y[1]) THEN Indet ELSE <<DivS(Off(x[1]) - Off(y[1]), st.lay[T[tx].to].sz)>>)
         [] op \in Compare -> PtrCmp(op, x[1], y[1])
  ELSE IF op \in Shifts THEN Shift(op, tx # tUInt, x[1], y[1])
  ELSE LET u == Usual(tx, ty)  cx == Conv(tx, u, x)  cy == Conv(ty, u, y) IN
       IF ~Both(cx, cy) THEN Worst(cx, cy)
       ELSE LET a == cx[1]  b == cy[1] IN
       IF op \in Compare
       THEN (IF u = tFloat THEN FltCmp(op, a, b) ELSE Cmp(op, IF u = tUInt THEN LtU(a, b) ELSE a < b, a = b))
       ELSE IF u = tFloat THEN FltOp(op, a, b) ELSE IntOp(op, u = tInt, a, b)
UnOp(op, tx, t, x) ==
  IF Len(x) # 1 THEN x
  ELSE CASE op = "neg" -> (IF tx = tFloat THEN <<FNeg(x[1])>> ELSE IF tx = tInt /\ x[1] = MinInt THEN Indet ELSE <<Neg(x[1])>>)
         [] op = "plus" -> x
         [] op = "bnot" -> <<BNot(x[1])>>
         [] op = "not" -> (IF tx = tFloat THEN Bool(FEq(x[1], 0)) ELSE Bool(x[1] = 0))
         [] op = "cast" -> Conv(tx, t, x)
\* does a value of type t count as true: <<1>>, <<0>> or not known
Truth(t, v) == IF Len(v) # 1 THEN v ELSE Bool(IF T[t].k = "flt" THEN ~FEq(v[1], 0) ELSE v[1] # 0)

------------------------- (* expressions without effects *) ------------------
\* environment: automatic variables; others are static objects
VarAddr(e, v) == IF v \in DOMAIN e THEN e[v] ELSE v * 65536
PTy(n) == PT(T, st.ty, N, n)
\* record type of a member access
RecOf(n) == IF N[n].k = "fld" THEN st.ty[N[n].a] ELSE T[st.ty[N[n].a]].to
IsBits(n) == N[n].k \in {"fld", "arr"} /\ N[n].fw > 0
ReadLv(m, n, a) ==
  IF Len(a) # 1 THEN a
  ELSE IF IsBits(n) THEN LoadBits(m, a[1], st.lay[RecOf(n)].sh[N[n].v], N[n].fw, T[st.ty[n]].sg)
  ELSE Load(m, st.ty[n], a[1])
WriteLv(m, n, a, v) ==
  IF Len(a) # 1 THEN <<>>
  ELSE IF IsBits(n) THEN StoreBits(m, a[1], st.lay[RecOf(n)].sh[N[n].v], N[n].fw, v)
  ELSE Store(m, st.ty[n], a[1], v)
\* the value an assignment to n yields
Assigned(m, n, a, v) == IF T[st.ty[n]].k \in {"rec", "uni"} THEN a ELSE ReadLv(m, n, a)
AddOff(n, a) == IF Len(a) # 1 THEN a ELSE IF a[1] = 0 THEN Wild ELSE <<a[1] + st.lay[RecOf(n)].off[N[n].v]>>
RECURSIVE Ev(_, _, _)
RECURSIVE Ad(_, _, _)
Ad(n, m, e) ==
  LET x == N[n] IN
  CASE x.k = "var" -> <<VarAddr(e, x.v)>>
    [] x.k = "deref" -> Ev(x.a, m, e)
    [] x.k = "ix" -> BinOp(m, "+", PTy(x.a), PTy(x.b), 0, Ev(x.a, m, e), Ev(x.b, m, e))
    [] x.k = "fld" -> AddOff(n, IF N[x.a].k \in LvKinds THEN Ad(x.a, m, e) ELSE Ev(x.a, m, e))
    [] x.k = "arr" -> AddOff(n, Ev(x.a, m, e))
    [] x.k = "str" -> <<x.v * 65536>>
    [] x.k = "fun" -> <<(Code0 + x.v) * 65536>>
Ev(n, m, e) ==
  LET x == N[n] IN
  CASE x.k = "num" -> <<x.v>>
    [] x.k \in LvKinds -> ReadLv(m, n, Ad(n, m, e))
    [] x.k = "str" -> <<x.v * 65536>>
    [] x.k = "fun" -> <<(Code0 + x.v) * 65536>>
    [] x.k = "addr" -> Ad(x.a, m, e)
    [] x.k = "szt" -> <<st.lay[x.v].sz>>
    [] x.k = "sze" -> <<st.lay[st.ty[x.a]].sz>>
    [] x.k = "cast" -> Conv(st.ty[x.a], x.t, Ev(x.a, m, e))
    [] x.k \in Unary -> UnOp(x.k, PTy(x.a), st.ty[n], Ev(x.a, m, e))
    [] x.k \in Binary -> BinOp(m, x.k, PTy(x.a), PTy(x.b), st.ty[n], Ev(x.a, m, e), Ev(x.b, m, e))
    [] x.k = "&&" -> (LET v == Truth(st.ty[x.a], Ev(x.a, m, e)) IN IF v = <<1>> THEN Truth(st.ty[x.b], Ev(x.b, m, e)) ELSE v)
    [] x.k = "||" -> (LET v == Truth(st.ty[x.a], Ev(x.a, m, e)) IN IF v = <<0>> THEN Truth(st.ty[x.b], Ev(x.b, m, e)) ELSE v)
    [] x.k = "?:" -> (LET v == Truth(st.ty[x.a], Ev(x.a, m, e)) IN
                      IF v = <<1>> THEN Conv(PTy(x.b), st.ty[n], Ev(x.b, m, e)) ELSE IF v = <<0>> THEN Conv(PTy(x.c), st.ty[n], Ev(x.c, m, e)) ELSE Wild)
    [] x.k = "," -> (IF Len(Ev(x.a, m, e)) = 2 THEN Wild ELSE Ev(x.b, m, e))

----------------------------- (* initialisers *) -----------------------------
\* Fill(m, t, a, items): initialise the object of type t at address a from a
\* prefix of items (braces may be left out); [m, rest]
NoEnv == [v \in {} |-> 0]
IsAgg(t) == T[t].k \in {"arr", "rec", "uni"}
IsCharArr(t) == T[t].k = "arr" /\ T[T[t].to].k = "int" /\ T[T[t].to].sz = 1
PutString(m, t, a, s) == Write(m, a, [i \in 1..st.lay[t].sz |-> IF i <= Len(s) THEN s[i] ELSE 0])
\* a value the language does not define leaves undefined bytes
PutScalar(m, t, a, n) == Write(m, a, BytesOf(t, Conv(st.ty[n], t, Ev(n, m, NoEnv)), st.lay[t].sz))
RECURSIVE Fill(_, _, _, _)
RECURSIVE Braced(_, _, _, _)
\* one component of type t at a, w: bit-field width or -1, s: bit position
Component(r, t, a, w, s) ==
  IF r.rest = <<>> THEN r
  ELSE LET h == r.rest[1] IN
       IF w >= 0 THEN [m |-> LET v == Conv(st.ty[h], tInt, Ev(h, r.m, NoEnv)) IN
                            IF Len(v) = 1 THEN StoreBits(r.m, a, s, w, v)[1] ELSE Write(r.m, a, ToBytes(v, 4)), rest |-> Tail(r.rest)]
       ELSE IF N[h].k = "ilist" THEN [m |-> Braced(r.m, t, a, N[h].l), rest |-> Tail(r.rest)]
       ELSE IF N[h].k = "sinit" /\ IsCharArr(t) THEN [m |-> PutString(r.m, t, a, N[h].l), rest |-> Tail(r.rest)]
       ELSE IF IsAgg(t) THEN Fill(r.m, t, a, r.rest)
       ELSE [m |-> PutScalar(r.m, t, a, h), rest |-> Tail(r.rest)]
Fill(m, t, a, items) ==
  LET ty == T[t]  L == st.lay[t] IN
  CASE ty.k = "arr" -> FoldLeft(LAMBDA r, i : Component(r, ty.to, a + (i - 1) * st.lay[ty.to].sz, -1, 0), [m |-> m, rest |-> items], Nat0(ty.n))
    [] ty.k = "rec" -> FoldLeft(LAMBDA r, i : IF ty.f[i].anon THEN r ELSE Component(r, ty.f[i].t, a + L.off[i], ty.f[i].w, L.sh[i]), [m |-> m, rest |-> items], Idx(ty.f))
    [] ty.k = "uni" -> LET i == CHOOSE i \in 1..Len(ty.f) : ~ty.f[i].anon /\ \A j \in 1..(i - 1) : ty.f[j].anon IN
                       Component([m |-> m, rest |-> items], ty.f[i].t, a, ty.f[i].w, 0)
Braced(m, t, a, items) ==
  IF items = <<>> THEN m
  ELSE IF IsCharArr(t) /\ N[items[1]].k = "sinit" THEN PutString(m, t, a, N[items[1]].l)
  ELSE IF IsAgg(t) THEN Fill(m, t, a, items).m
  ELSE PutScalar(m, t, a, items[1])
ZeroObj(n) == [i \in 1..n |-> 0]
InitObj(m, t, a, n) ==
  LET z == Write(m, a, ZeroObj(st.lay[t].sz)) IN
  IF n = 0 THEN z
  ELSE IF N[n].k = "ilist" THEN Braced(z, t, a, N[n].l)
  ELSE IF N[n].k = "sinit" THEN PutString(z, t, a, N[n].l)
  ELSE PutScalar(z, t, a, n)
Undef(n) == [i \in 1..n |-> -1]
\* memory at program start: object i is variable i if that is static
Memory0 ==
  LET blank == [i \in 1..Len(C.vars) |-> IF C.vars[i].st THEN ZeroObj(st.lay[C.vars[i].t].sz) ELSE <<>>]
  IN FoldLeft(LAMBDA m, i : IF C.vars[i].st /\ C.vars[i].ini # 0 THEN InitObj(m, C.vars[i].t, i * 65536, C.vars[i].ini) ELSE m, blank, Idx(C.vars))

------------------------------ (* statements *) ------------------------------
RECURSIVE After(_)
After(s) ==
  LET p == st.par[s] IN
  IF p = 0 THEN <<0, "end">>
  ELSE LET x == N[p] IN
       CASE x.k = "blk" -> (LET i == CHOOSE j \in 1..Len(x.l) : x.l[j] = s IN IF i < Len(x.l) THEN <<x.l[i + 1], "in">> ELSE After(p))
         [] x.k = "while" -> <<p, "in">>
         [] x.k = "do" -> <<p, "test">>
         [] x.k = "for" -> <<p, "inc">>
         [] OTHER -> After(p)
RECURSIVE BreakTo(_)
BreakTo(s) == LET p == st.par[s] IN IF N[p].k \in {"while", "do", "for", "switch"} THEN After(p) ELSE BreakTo(p)
RECURSIVE ContTo(_)
ContTo(s) ==
  LET p == st.par[s] IN
  CASE N[p].k = "while" -> <<p, "in">> [] N[p].k = "do" -> <<p, "test">> [] N[p].k = "for" -> <<p, "inc">> [] OTHER -> ContTo(p)
\* labels of a switch: <<value or <<>> for default, statement>>
RECURSIVE Labels(_)
Labels(s) ==
  IF s = 0 THEN {}
  ELSE LET x == N[s] IN
  CASE x.k = "case" -> {<<<<x.v>>, s>>} \cup Labels(x.a)
    [] x.k = "default" -> {<<<<>>, s>>} \cup Labels(x.a)
    [] x.k = "blk" -> UNION {Labels(x.l[i]) : i \in 1..Len(x.l)}
    [] x.k = "if" -> Labels(x.b) \cup Labels(x.c)
    [] x.k \in {"while", "do"} -> Labels(x.b)
    [] x.k = "for" -> Labels(x.d)
    [] x.k = "label" -> Labels(x.a)
    [] OTHER -> {}
SwitchTo(s, v) ==
  LET t == PTy(N[s].a)
      L == Labels(N[s].b)
      hit == {l \in L : l[1] = v}
      dflt == {l \in L : l[1] = <<>>}
  IN IF hit # {} THEN <<(CHOOSE l \in hit : TRUE)[2], "in">>
     ELSE IF dflt # {} THEN <<(CHOOSE l \in dflt : TRUE)[2], "in">> ELSE After(s)

------------------------------ (* the machine *) -----------------------------
\* r: the part of the state that changes; every rule maps r to r
Go(r, p) == [r EXCEPT !.pc = p]
Work(r, items) == [r EXCEPT !.ctl = @ \o items]
Push(r, v) == [r EXCEPT !.vs = Append(@, v)]
End(r, o) == [r EXCEPT !.out = o]
UB(r) == End(r, "free")
E(n) == <<"e", n>>

\* With call tracing each call and return is observed: which function, the number of this call, and its scalar arguments or result.
Traced == "trace" \in DOMAIN C /\ C.trace
Scalar(t) == T[t].k \in {"int", "flt"}
Expect(r, ws) ==
  IF r.out # "" THEN r
  ELSE IF r.li + Len(ws) > Len(C.obs) - 1 THEN End(r, "output missing or too much")
  ELSE IF \E i \in 1..Len(ws) : LET o == C.obs[r.li + i]  w == ws[i] IN
            ~(Len(w.v) # 1 \/ w.v[1] = o \/ (w.t # tVoid /\ T[w.t].k = "flt" /\ IsNaN(w.v[1]) /\ IsNaN(o)))
  THEN End([r EXCEPT !.vs = [i \in 1..Len(ws) |-> ws[i].v]], "wrong trace")
  ELSE [r EXCEPT !.li = @ + Len(ws)]
TraceCall(r, f, args) ==
  LET F == C.funcs[f]
      ps == SelectSeq(Nat0(Len(F.params)), LAMBDA i : Scalar(C.vars[F.params[i]].t))
  IN Expect(r, <<[v |-> <<1000000 + f>>, t |-> tVoid], [v |-> <<Top(r.frames).no>>, t |-> tVoid]>>
               \o [i \in 1..Len(ps) |-> [v |-> args[ps[i]], t |-> C.vars[F.params[ps[i]]].t]])
TraceReturn(r, v, given) ==
  LET fr == Top(r.frames)  F == C.funcs[fr.fn] IN
  Expect(r, <<[v |-> <<2000000 + fr.fn>>, t |-> tVoid], [v |-> <<fr.no>>, t |-> tVoid]>>
            \o (IF given /\ Scalar(F.ret) THEN <<[v |-> v, t |-> F.ret]>> ELSE <<>>))

\* call of function f with arguments args (converted); continue in it
Call(r, f, args) ==
  LET F == C.funcs[f]
      base == Len(r.mem)
      szs == [i \in 1..Len(F.autos) |-> st.lay[C.vars[F.autos[i]].t].sz]
      blank == r.mem \o [i \in 1..Len(F.autos) |-> Undef(szs[i])]
      ps == Len(F.params)
      \* arguments of a variadic function lie one after the other, the last parameter is the first of them
      va == IF F.va THEN <<FlattenSeq([i \in 1..(Len(args) - ps + 1) |-> ToBytes(args[ps - 1 + i], 4)])>> ELSE <<>>
      en == [i \in {F.autos[j] : j \in 1..Len(F.autos)} |-> (base + (CHOOSE j \in 1..Len(F.autos) : F.autos[j] = i)) * 65536]
      en2 == IF F.va THEN [en EXCEPT ![F.params[ps]] = (base + Len(F.autos) + 1) * 65536] ELSE en
      ms == FoldLeft(LAMBDA m, i : IF m = <<>> THEN <<>> ELSE Store(m[1], C.vars[F.params[i]].t, en2[F.params[i]], args[i]),
                     <<blank \o va>>, Nat0(ps))
  IN IF ms = <<>> \/ Len(r.frames) > 60 THEN UB(r)
     ELSE LET \* calls of each function so far: kept in the bottom frame
              cnt == IF ~Traced THEN <<>> ELSE IF r.frames = <<>> THEN [i \in 1..Len(C.funcs) |-> IF i = f THEN 1 ELSE 0] ELSE [r.frames[1].cnt EXCEPT ![f] = @ + 1]
              new == [pc |-> r.pc, ctl |-> r.ctl, vs |-> r.vs, env |-> r.env, base |-> base, fn |-> f, no |-> IF Traced THEN cnt[f] ELSE 0, cnt |-> cnt]
              fs == Append(r.frames, new)
              q == [r EXCEPT !.frames = IF Traced THEN [fs EXCEPT ![1].cnt = cnt] ELSE fs,
                             !.pc = <<F.body, "in">>, !.ctl = <<>>, !.vs = <<>>, !.env = en2, !.mem = ms[1]]
          IN IF Traced THEN TraceCall(q, f, args) ELSE q
\* return value v (of the function's type) to the caller
Return0(r, v) ==
  LET fr == Top(r.frames)
      F == C.funcs[fr.fn]
      cut == SubSeq(r.mem, 1, fr.base)
      agg == T[F.ret].k \in {"rec", "uni"}
      bad == Len(v) = 2 \/ (agg /\ (Len(v) # 1 \/ ~InObj(r.mem, v[1], st.lay[F.ret].sz)))
      m2 == IF agg THEN Append(cut, Bytes(r.mem, v[1], st.lay[F.ret].sz)) ELSE cut
      v2 == IF agg THEN <<Len(m2) * 65536>> ELSE v
  IN IF bad THEN UB(r)
     ELSE IF Len(r.frames) = 1
     THEN \* the main function: its result is the last observation
          IF C.stopped THEN End(r, "the program was stopped")
          ELSE IF r.li # Len(C.obs) - 1 THEN End(r, "output missing or too much")
          ELSE IF Len(v) = 1 /\ F.ret # tVoid /\ C.obs[r.li + 1] # v[1] THEN End(r, "wrong result") ELSE End(r, "agrees")
     ELSE [r EXCEPT !.frames = Pop(@), !.pc = fr.pc, !.ctl = fr.ctl, !.vs = Append(fr.vs, v2), !.env = fr.env, !.mem = m2]

ReturnG(r, v, given) ==
  IF Traced THEN LET q == TraceReturn(r, v, given) IN IF q.out # "" THEN q ELSE Return0(q, v) ELSE Return0(r, v)
Return(r, v) == ReturnG(r, v, TRUE)

Observe(r, t, v) ==
  IF Len(v) = 2 THEN UB(r)
  ELSE IF r.li >= Len(C.obs) - 1 THEN End(r, "output missing or too much")
  ELSE IF Len(v) = 0 \/ (t = tFloat /\ IsNaN(v[1]) /\ IsNaN(C.obs[r.li + 1])) \/ C.obs[r.li + 1] = v[1] THEN [r EXCEPT !.li = @ + 1]
  ELSE End([r EXCEPT !.vs = <<v>>], "wrong value")

\* items of work for an expression with effects
Decompose(n) ==
  LET x == N[n] IN
  CASE x.k \in Binary -> <<<<"op", n>>, E(x.b), E(x.a)>>
    [] x.k \in Unary -> <<<<"op", n>>, E(x.a)>>
    [] x.k \in LvKinds -> <<<<"ld", n>>, <<"l", n>>>>
    [] x.k = "addr" -> <<<<"l", x.a>>>>
    [] x.k \in {"=", "op="} -> <<<<x.k, n>>, E(x.b), <<"l", x.a>>>>
    [] x.k \in IncDec -> <<<<"id", n>>, <<"l", x.a>>>>
    [] x.k \in {"&&", "||"} -> <<<<"sc", n>>, E(x.a)>>
    [] x.k = "?:" -> <<<<"tern", n>>, E(x.a)>>
    [] x.k = "," -> <<E(x.b), <<"drop", n>>, E(x.a)>>
    [] x.k = "call" -> <<<<"call", n>>>> \o [i \in 1..Len(x.l) |-> E(x.l[Len(x.l) + 1 - i])] \o <<E(x.a)>>
    [] x.k = "out" -> <<<<"out", n>>, E(x.a)>>
DecomposeLv(n) ==
  LET x == N[n] IN
  CASE x.k = "deref" -> <<E(x.a)>>
    [] x.k = "ix" -> <<<<"op", n>>, E(x.b), E(x.a)>>
    [] x.k = "fld" -> <<<<"off", n>>, IF N[x.a].k \in LvKinds THEN <<"l", x.a>> ELSE E(x.a)>>
    [] x.k = "arr" -> <<<<"off", n>>, E(x.a)>>

\* assignment of v (already of the left side's type) to lvalue n at address a
Assign(r, n, a, v, old, post) ==
  LET ms == WriteLv(r.mem, n, a, v) IN
  IF ms = <<>> THEN UB(r)
  ELSE Push([r EXCEPT !.mem = ms[1]], IF post THEN old ELSE Assigned(ms[1], n, a, v))

Item(r0) ==
  LET it == Top(r0.ctl)
      r == [r0 EXCEPT !.ctl = Pop(@)]
      n == it[2]  x == N[n]
      v1 == Top(r.vs)
      v2 == r.vs[Len(r.vs) - 1]
      r1 == [r EXCEPT !.vs = Pop(@)]
      r2 == [r EXCEPT !.vs = SubSeq(@, 1, Len(@) - 2)]
  IN
  CASE it[1] = "e" -> IF st.eff[n] THEN Work(r, Decompose(n))
                      ELSE (LET v == Ev(n, r.mem, r.env) IN IF Len(v) = 2 THEN UB(r) ELSE Push(r, v))
    [] it[1] = "l" -> IF st.eff[n] THEN Work(r, DecomposeLv(n))
                      ELSE (LET v == Ad(n, r.mem, r.env) IN IF Len(v) = 2 THEN UB(r) ELSE Push(r, v))
    [] it[1] = "ld" -> (LET v == ReadLv(r.mem, n, v1) IN IF Len(v) = 2 THEN UB(r) ELSE Push(r1, v))
    [] it[1] = "off" -> (LET v == AddOff(n, v1) IN IF Len(v) = 2 THEN UB(r) ELSE Push(r1, v))
    [] it[1] = "op" ->
       (IF x.k \in Unary
        THEN LET v == IF x.k = "cast" THEN Conv(st.ty[x.a], x.t, v1) ELSE UnOp(x.k, PTy(x.a), st.ty[n], v1)
             IN IF Len(v) = 2 THEN UB(r) ELSE Push(r1, v)
        ELSE LET v == BinOp(r.mem, IF x.k = "ix" THEN "+" ELSE x.k, PTy(x.a), PTy(x.b), st.ty[n], v2, v1)
             IN IF Len(v) = 2 THEN UB(r) ELSE Push(r2, v))
    [] it[1] = "=" -> Assign(r2, x.a, v2, Conv(PTy(x.b), st.ty[x.a], v1), Indet, FALSE)
    [] it[1] = "op=" ->
       (LET old == ReadLv(r.mem, x.a, v2)
            t == IF x.o \in Shifts \/ IsPtr(T, st.ty[x.a]) THEN PTy(x.a) ELSE Usual(PTy(x.a), PTy(x.b))
            v == BinOp(r.mem, x.o, PTy(x.a), PTy(x.b), t, old, v1)
        IN IF Len(v) = 2 THEN UB(r) ELSE Assign(r2, x.a, v2, Conv(t, st.ty[x.a], v), Indet, FALSE))
    [] it[1] = "id" ->
       (LET old == ReadLv(r.mem, x.a, v1)
            op == IF x.k \in {"++p", "p++"} THEN "+" ELSE "-"
            t == IF IsPtr(T, st.ty[x.a]) THEN st.ty[x.a] ELSE Usual(PTy(x.a), tInt)
            v == BinOp(r.mem, op, PTy(x.a), tInt, t, old, <<1>>)
        IN IF Len(v) = 2 THEN UB(r) ELSE Assign(r1, x.a, v1, Conv(t, st.ty[x.a], v), old, x.k \in {"p++", "p--"}))
    [] it[1] = "sc" ->
       (LET b == Truth(st.ty[x.a], v1) IN
        IF Len(b) # 1 THEN UB(r)
        ELSE IF (x.k = "&&") = (b = <<1>>) THEN Work(r1, <<<<"bool", n>>, E(x.b)>>) ELSE Push(r1, b))
    [] it[1] = "bool" -> Push(r1, Truth(st.ty[x.b], v1))
    [] it[1] = "tern" ->
       (LET b == Truth(st.ty[x.a], v1) IN
        IF Len(b) # 1 THEN UB(r) ELSE Work(r1, IF b = <<1>> THEN <<<<"tb", n>>, E(x.b)>> ELSE <<<<"tc", n>>, E(x.c)>>))
    [] it[1] = "tb" -> Push(r1, Conv(PTy(x.b), st.ty[n], v1))
    [] it[1] = "tc" -> Push(r1, Conv(PTy(x.c), st.ty[n], v1))
    [] it[1] = "drop" -> r1
    [] it[1] = "out" -> Push(Observe(r1, x.v, Conv(PTy(x.a), x.v, v1)), Indet)
    [] it[1] = "call" ->
       (LET k == Len(x.l)
            f == r.vs[Len(r.vs) - k]
            raw == SubSeq(r.vs, Len(r.vs) - k + 1, Len(r.vs))
            rr == [r EXCEPT !.vs = SubSeq(@, 1, Len(@) - k - 1)]
            fn == IF Len(f) = 1 THEN Obj(f[1]) - Code0 ELSE 0
            F == C.funcs[fn]
            ps == Len(F.params)
        IN IF fn < 1 \/ fn > Len(C.funcs) THEN UB(r)
           ELSE IF k # ps /\ ~(F.va /\ k >= ps) THEN UB(r)
           ELSE Call(rr, fn, [i \in 1..k |-> Conv(PTy(x.l[i]), IF i <= ps THEN C.vars[F.params[i]].t ELSE PTy(x.l[i]), raw[i])]))

Statement(r) ==
  LET s == r.pc[1]  ph == r.pc[2]  x == N[s]
      fresh == [r EXCEPT !.vs = <<>>]
      Eval(n, p) == Go(Work(fresh, <<E(n)>>), p)
      v == IF r.vs = <<>> THEN Indet ELSE Top(r.vs)
      Br(n, yes, no) == LET b == Truth(st.ty[n], v) IN IF Len(b) # 1 THEN UB(r) ELSE Go(fresh, IF b = <<1>> THEN yes ELSE no)
  IN
  IF ph = "end" THEN Return(r, Indet)
  ELSE CASE x.k = "nop" -> Go(fresh, After(s))
    [] x.k = "expr" -> Eval(x.a, After(s))
    [] x.k = "blk" -> Go(fresh, IF x.l = <<>> THEN After(s) ELSE <<x.l[1], "in">>)
    [] x.k = "if" -> IF ph = "in" THEN Eval(x.a, <<s, "br">>)
                     ELSE Br(x.a, <<x.b, "in">>, IF x.c # 0 THEN <<x.c, "in">> ELSE After(s))
    [] x.k = "while" -> IF ph = "in" THEN Eval(x.a, <<s, "br">>) ELSE Br(x.a, <<x.b, "in">>, After(s))
    [] x.k = "do" -> IF ph = "in" THEN Go(fresh, <<x.b, "in">>) ELSE IF ph = "test" THEN Eval(x.a, <<s, "br">>)
                     ELSE Br(x.a, <<x.b, "in">>, After(s))
    [] x.k = "for" -> (CASE ph = "in" -> (IF x.a # 0 THEN Eval(x.a, <<s, "test">>) ELSE Go(fresh, <<s, "test">>))
                        [] ph = "test" -> (IF x.b # 0 THEN Eval(x.b, <<s, "br">>) ELSE Go(fresh, <<x.d, "in">>))
                        [] ph = "br" -> Br(x.b, <<x.d, "in">>, After(s))
                        [] ph = "inc" -> (IF x.c # 0 THEN Eval(x.c, <<s, "test">>) ELSE Go(fresh, <<s, "test">>)))
    [] x.k = "switch" -> IF ph = "in" THEN Eval(x.a, <<s, "br">>) ELSE IF Len(v) # 1 THEN UB(r) ELSE Go(fresh, SwitchTo(s, v))
    [] x.k \in {"case", "default", "label"} -> Go(fresh, <<x.a, "in">>)
    [] x.k = "brk" -> Go(fresh, BreakTo(s))
    [] x.k = "cont" -> Go(fresh, ContTo(s))
    [] x.k = "goto" -> Go(fresh, <<x.v, "in">>)
    [] x.k = "ret" -> IF x.a = 0 THEN ReturnG(r, Indet, FALSE)
                      ELSE IF ph = "in" THEN Eval(x.a, <<s, "rv">>)
                      ELSE Return(r, Conv(PTy(x.a), C.funcs[Top(r.frames).fn].ret, v))
    [] x.k = "decl" -> IF C.vars[x.v].st THEN Go(fresh, After(s)) ELSE
       (LET t == C.vars[x.v].t  a == r.env[x.v] IN
        IF x.a = 0 THEN Go([fresh EXCEPT !.mem = Write(@, a, Undef(st.lay[t].sz))], After(s))
        ELSE IF N[x.a].k \in {"ilist", "sinit"} THEN Go([fresh EXCEPT !.mem = InitObj(@, t, a, x.a)], After(s))
        ELSE IF ph = "in" THEN Eval(x.a, <<s, "di">>)
        ELSE LET ms == Store(r.mem, t, a, Conv(PTy(x.a), t, v)) IN
             IF ms = <<>> THEN UB(r) ELSE Go([fresh EXCEPT !.mem = ms[1]], After(s)))

MaxSteps == 60000
Init ==
  /\ cid \in 1..Len(Cases)
  /\ st = <<>> /\ pc = <<0, "start">> /\ ctl = <<>> /\ vs = <<>> /\ mem = <<>> /\ env = <<>> /\ frames = <<>>
  /\ li = 0 /\ out = "" /\ step = 0
Prepare ==
  /\ pc[2] = "start"
  /\ st' = [lay |-> LayoutOf(T), ty |-> TypesOf(T, C.vars, N), eff |-> EffectsOf(N), par |-> ParentsOf(N)]
  /\ pc' = <<0, "memory">>
  /\ UNCHANGED <<out, cid, ctl, vs, mem, env, frames, li>>
Load0 ==
  /\ pc[2] = "memory"
  /\ \E r \in {LET m0 == Memory0
                    q == [pc |-> <<0, "bad">>, ctl |-> <<>>, vs |-> <<>>, mem |-> m0, env |-> NoEnv, frames |-> <<>>, li |-> 0, out |-> ""]
                IN IF \E i \in 1..Len(C.vars) : C.vars[i].st /\ -1 \in Range(m0[i])
                   THEN [q EXCEPT !.out = "free"]    \* an initializer has no value: need not compile
                   ELSE IF C.why # "" THEN [q EXCEPT !.out = C.why]
                   ELSE Call(q, 1, [i \in 1..Len(C.funcs[1].params) |-> <<C.args[i]>>])} :
       /\ pc' = r.pc /\ mem' = r.mem /\ env' = r.env /\ frames' = r.frames /\ out' = r.out /\ li' = r.li
  /\ UNCHANGED <<cid, st, ctl, vs>>
Run ==
  /\ pc[2] \notin {"start", "memory", "bad"}
  /\ \E r \in {LET q == [pc |-> pc, ctl |-> ctl, vs |-> vs, mem |-> mem, env |-> env, frames |-> frames, li |-> li, out |-> ""] IN
               IF step > MaxSteps THEN End(q, "long") ELSE IF ctl = <<>> THEN Statement(q) ELSE Item(q)} :
       /\ pc' = r.pc /\ ctl' = r.ctl /\ vs' = r.vs /\ mem' = r.mem /\ env' = r.env /\ frames' = r.frames /\ li' = r.li /\ out' = r.out
  /\ UNCHANGED <<cid, st>>
Next ==
  \/ /\ out = ""
     /\ Prepare \/ Load0 \/ Run
     /\ step' = step + 1
     /\ (out' # "") => PrintT(<<IF out' \in {"free", "long"} THEN out' ELSE "judged", cid>>)
  \/ out # "" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<cid, step>>
Fine == {"", "agrees", "free", "long"}
Conforms == out \in Fine
Shown == [case |-> cid, name |-> C.name, out |-> out, pc |-> pc, node |-> IF pc[1] # 0 THEN N[pc[1]] ELSE 0, vs |-> vs, ctl |-> ctl, li |-> li,
          seen |-> IF li < Len(C.obs) THEN C.obs[li + 1] ELSE 0, prev |-> step]
=============================================================================
