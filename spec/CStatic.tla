------------------------------ MODULE CStatic -------------------------------
(* The static rules of the compiled language: which translation units are   *)
(* valid, and for the others where the first violation of a syntax rule or  *)
(* a constraint becomes apparent in a reading from left to right.           *)
(*                                                                          *)
(* A case is a translation unit as a sequence of tokens with their lines,   *)
(* and what the real compiler did with it: exit status, the lines of its    *)
(* diagnostics, whether it crashed.  The specification reads one external   *)
(* declaration, block declaration or statement per step; its state is the   *)
(* position, the scopes, the types, and the stack of open statements.       *)
(*                                                                          *)
(* Outcomes: "valid", "invalid" (with the lines on which it is reported),   *)
(* "free" (the language, or the compiler's documented extensions, leave it  *)
(* open whether the unit is accepted).                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, step, m
vars == <<cid, step, m>>
C == Cases[cid]

(* ------------------------------ tokens --------------------------------- *)
NT == Len(C.x)
X(i) == IF i > NT THEN "EOF" ELSE C.x[i]        \* spelling of keywords and punctuators, else ID NUM FLT STR
S(i) == IF i > NT THEN "" ELSE C.s[i]           \* spelling of the others
Line(i) == IF i > NT THEN C.last ELSE C.l[i]
V(i) == C.v[i]                                   \* value of a number, length of a string

(* ------------------------------- types --------------------------------- *)
\* <<kind, qualifiers, ...>>: pointers <<"ptr", q, T>>, arrays <<"arr", {}, T, n>> (-1: not known), functions
\* <<"fn", {}, T, parameter types, "no"|"va"|"old">>, structures <<"struct"|"union", q, id>>, enumerations <<"enum", q, id>>
IntT == <<"int", {}>>
UIntT == <<"uint", {}>>
CharT == <<"char", {}>>
DblT == <<"double", {}>>
VoidT == <<"void", {}>>
Ptr(t) == <<"ptr", {}, t>>
IntKinds == {"char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "enum"}
FltKinds == {"float", "double", "ldouble"}
Unq(t) == [t EXCEPT ![2] = {}]
K(t) == t[1]
IsInt(t) == K(t) \in IntKinds
IsArith(t) == K(t) \in IntKinds \cup FltKinds
IsPtr(t) == K(t) = "ptr"
IsScalar(t) == IsArith(t) \/ IsPtr(t)
IsSU(t) == K(t) \in {"struct", "union"}
IsFn(t) == K(t) = "fn"
IsVoid(t) == K(t) = "void"
PFn(t) == IsPtr(t) /\ IsFn(t[3])
PVoid(t) == IsPtr(t) /\ IsVoid(t[3])
RECURSIVE SameT(_, _)
SameT(a, b) ==
  /\ K(a) = K(b)
  /\ a[2] = b[2]
  /\ CASE K(a) = "ptr" -> SameT(a[3], b[3])
       [] K(a) = "arr" -> SameT(a[3], b[3]) /\ (a[4] = b[4] \/ a[4] = -1 \/ b[4] = -1)
       [] K(a) = "fn" -> /\ SameT(a[3], b[3])
                         /\ IF a[5] = "old" /\ b[5] = "old" THEN TRUE
                            ELSE IF a[5] # "old" /\ b[5] # "old"
                            THEN a[5] = b[5] /\ Len(a[4]) = Len(b[4]) /\ \A k \in 1..Len(a[4]) : SameT(Unq(a[4][k]), Unq(b[4][k]))
                            ELSE LET p == IF a[5] = "old" THEN b ELSE a IN
                                 p[5] # "va" /\ \A k \in 1..Len(p[4]) : K(p[4][k]) \notin {"char", "schar", "uchar", "short", "ushort"}        \* (float and double are one type here)
       [] K(a) \in {"struct", "union", "enum"} -> a[3] = b[3]
       [] OTHER -> TRUE
\* the type of a second declaration of the same thing completes that of the first
RECURSIVE Comp(_, _)
Comp(a, b) == CASE K(a) = "ptr" -> [a EXCEPT ![3] = Comp(a[3], b[3])]
                [] K(a) = "arr" -> <<"arr", {}, Comp(a[3], b[3]), IF a[4] = -1 THEN b[4] ELSE a[4]>>
                [] K(a) = "fn" -> IF a[5] = "old" THEN b ELSE a
                [] OTHER -> a
Struct(w, t) == w.su[t[3]]
RECURSIVE Complete(_, _)
Complete(w, t) == CASE K(t) = "void" -> FALSE
                    [] K(t) = "fn" -> FALSE
                    [] K(t) = "arr" -> t[4] # -1 /\ Complete(w, t[3])
                    [] IsSU(t) -> Struct(w, t).done
                    [] OTHER -> TRUE
RECURSIVE SizeOf(_)
SizeOf(t) == CASE K(t) \in {"char", "schar", "uchar"} -> 1
               [] K(t) \in {"short", "ushort"} -> 2
               [] K(t) = "arr" -> (LET s == SizeOf(t[3]) IN IF s < 0 \/ t[4] > 4096 THEN -1 ELSE s * t[4])
               [] IsSU(t) -> -1
               [] OTHER -> 4
RECURSIVE QualIn(_, _), HasConst(_, _)
QualIn(t, q) == IF K(t) = "arr" THEN [t EXCEPT ![3] = QualIn(t[3], q)] ELSE [t EXCEPT ![2] = @ \cup q]
HasConst(w, t) == "const" \in t[2] \/ (K(t) = "arr" /\ HasConst(w, t[3]))
                  \/ (IsSU(t) /\ Struct(w, t).done /\ \E k \in 1..Len(Struct(w, t).flds) : HasConst(w, Struct(w, t).flds[k].t))
RECURSIVE HasShort(_, _)
HasShort(w, t) == K(t) \in {"short", "ushort"} \/ (K(t) = "arr" /\ HasShort(w, t[3]))
                  \/ (IsSU(t) /\ \E k \in 1..Len(Struct(w, t).flds) : HasShort(w, Struct(w, t).flds[k].t))

(* ------------------------------- scopes -------------------------------- *)
\* w.ids: scopes from the file's inwards, each a function from names to entities [e, t, sc, def, v]
Top(w) == Len(w.ids)
RECURSIVE Find(_, _, _)
Find(sc, n, k) == IF k = 0 THEN 0 ELSE IF n \in DOMAIN sc[k] THEN k ELSE Find(sc, n, k - 1)
Has(w, n) == Find(w.ids, n, Top(w)) # 0
Ent(w, n) == w.ids[Find(w.ids, n, Top(w))][n]
IsTypeName(w, i) == X(i) = "ID" /\ Has(w, S(i)) /\ Ent(w, S(i)).e = "type"
Put(w, n, e) == [w EXCEPT !.ids[Top(w)] = (n :> e) @@ @]
Here(w, n) == n \in DOMAIN w.ids[Top(w)]
Push(w) == [w EXCEPT !.ids = Append(@, <<>>), !.tags = Append(@, <<>>)]
Pop(w) == [w EXCEPT !.ids = SubSeq(@, 1, Len(@) - 1), !.tags = SubSeq(@, 1, Len(@) - 1)]

TypeKw == {"void", "char", "int", "float", "double", "short", "long", "signed", "unsigned", "struct", "union", "enum", "const", "volatile"}
ClassKw == {"auto", "register", "static", "extern", "typedef"}
StartsType(w, i) == X(i) \in TypeKw \/ IsTypeName(w, i)
StartsDecl(w, i) == X(i) \in TypeKw \cup ClassKw \/ IsTypeName(w, i)

(* ----------------------------- expressions ----------------------------- *)
\* result: next token, outcome ("" | "err" | "free"), type, lvalue ("no" | "lv" | "bf"), constant ("no" | "int" | "intq" | "flt" |
\* "addr" | "null" | "maybe") with value, whether the address of the lvalue is constant, and the register variable it names
R(p, t, lv, c, v) == [p |-> p, o |-> "", t |-> t, lv |-> lv, c |-> c, v |-> v, ac |-> FALSE, reg |-> FALSE]
Bad(p) == [R(p, IntT, "no", "no", 0) EXCEPT !.o = "err"]
Free(p) == [R(p, IntT, "no", "no", 0) EXCEPT !.o = "free"]
Val(p, t) == R(p, t, "no", "no", 0)
\* the value of an expression: arrays and functions become pointers, lvalues lose their qualifiers
Value(r) ==
  IF r.o # "" THEN r
  ELSE IF K(r.t) = "arr" THEN [r EXCEPT !.t = Ptr(r.t[3]), !.lv = "no", !.c = IF r.ac THEN "addr" ELSE "no", !.ac = FALSE]
  ELSE IF IsFn(r.t) THEN [r EXCEPT !.t = Ptr(r.t), !.lv = "no", !.c = "addr", !.ac = FALSE]
  ELSE [r EXCEPT !.t = Unq(r.t), !.lv = "no", !.ac = FALSE]
Small == 32767
Num(p, v) == IF v > Small \/ v < -Small THEN R(p, IntT, "no", "intq", 0) ELSE R(p, IntT, "no", "int", v)
IsNull(r) == (IsInt(r.t) /\ r.c = "int" /\ r.v = 0) \/ r.c = "null"
MaybeNull(r) == (IsInt(r.t) /\ r.c \in {"intq", "maybe"}) \/ (r.t = Ptr(VoidT) /\ r.c = "maybe")
EnumInt(t) == IF K(t) = "enum" THEN <<"int", t[2]>> ELSE t

\* may the value r be assigned to an object of type t?
Assign(w, t, r) ==
  LET x == EnumInt(Unq(t))  y == EnumInt(Unq(r.t)) IN
  IF ~Complete(w, x) \/ ~Complete(w, y) THEN "err"
  ELSE IF IsArith(x) /\ IsArith(y) THEN ""
  ELSE IF IsSU(x) /\ IsSU(y) THEN (IF x = y THEN "" ELSE "err")
  ELSE IF IsPtr(x) /\ IsNull(r) THEN ""
  ELSE IF IsPtr(x) /\ MaybeNull(r) THEN "free"
  ELSE IF ~(IsPtr(x) /\ IsPtr(y)) THEN "err"
  ELSE IF ~(y[3][2] \subseteq x[3][2]) THEN "err"
  ELSE IF IsVoid(x[3]) \/ IsVoid(y[3]) THEN (IF IsFn(x[3]) \/ IsFn(y[3]) THEN "free" ELSE "")
  ELSE IF SameT(Unq(x[3]), Unq(y[3])) THEN ""
  ELSE IF {K(x[3]), K(y[3])} = {"enum", "int"} THEN ""
  ELSE "err"

Prec(x) == CASE x \in {"*", "/", "%"} -> 10 [] x \in {"+", "-"} -> 9 [] x \in {"<<", ">>"} -> 8 [] x \in {"<", ">", "<=", ">="} -> 7
             [] x \in {"==", "!="} -> 6 [] x = "&" -> 5 [] x = "^" -> 4 [] x = "|" -> 3 [] x = "&&" -> 2 [] x = "||" -> 1 [] OTHER -> 0
AssignOps == {"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="}
Pow2(n) == CHOOSE k \in {2^n} : TRUE
FoldI(op, a, b) ==      \* [ok, v] for small signed constants
  CASE op = "+" -> <<TRUE, a + b>> [] op = "-" -> <<TRUE, a - b>>
    [] op = "*" -> <<TRUE, a * b>>
    [] op = "/" -> (IF b = 0 \/ a < 0 \/ b < 0 THEN <<FALSE, 0>> ELSE <<TRUE, a \div b>>)
    [] op = "%" -> (IF b = 0 \/ a < 0 \/ b < 0 THEN <<FALSE, 0>> ELSE <<TRUE, a % b>>)
    [] op = "<<" -> (IF a < 0 \/ b < 0 \/ b > 12 \/ a > 1000 THEN <<FALSE, 0>> ELSE <<TRUE, a * Pow2(b)>>)
    [] op = ">>" -> (IF a < 0 \/ b < 0 \/ b > 12 THEN <<FALSE, 0>> ELSE <<TRUE, a \div Pow2(b)>>)
    [] op = "<" -> <<TRUE, IF a < b THEN 1 ELSE 0>> [] op = ">" -> <<TRUE, IF a > b THEN 1 ELSE 0>>
    [] op = "<=" -> <<TRUE, IF a <= b THEN 1 ELSE 0>> [] op = ">=" -> <<TRUE, IF a >= b THEN 1 ELSE 0>>
    [] op = "==" -> <<TRUE, IF a = b THEN 1 ELSE 0>> [] op = "!=" -> <<TRUE, IF a # b THEN 1 ELSE 0>>
    [] op = "&&" -> <<TRUE, IF a # 0 /\ b # 0 THEN 1 ELSE 0>> [] op = "||" -> <<TRUE, IF a # 0 \/ b # 0 THEN 1 ELSE 0>>
    [] OTHER -> <<FALSE, 0>>
IsC(r) == r.c \in {"int", "intq"}
IsConst(r) == r.c # "no"
\* constantness and value of the result of an arithmetic operation of result type t
Arith2(op, l, r, t, p) ==
  IF IsC(l) /\ IsC(r) /\ op \in {"<<", ">>", "/", "%"} /\ ~(r.c = "int" /\ (IF op \in {"/", "%"} THEN r.v # 0 /\ r.v # -1 ELSE r.v \in 0..31))
  THEN (IF l.c = "int" /\ r.c = "int" /\ r.v = -1 /\ op = "/" THEN Num(p, -l.v) ELSE R(p, t, "no", "maybe", 0))      \* (perhaps) undefined
  ELSE IF IsC(l) /\ IsC(r) THEN (IF l.c = "int" /\ r.c = "int" /\ K(t) = "int" /\ FoldI(op, l.v, r.v)[1] THEN Num(p, FoldI(op, l.v, r.v)[2]) ELSE R(p, t, "no", "intq", 0))
  ELSE IF IsConst(l) /\ IsConst(r) THEN (IF l.c = "flt" \/ r.c = "flt" THEN (IF IsInt(t) THEN R(p, t, "no", "maybe", 0) ELSE R(p, t, "no", "flt", 0)) ELSE R(p, t, "no", "maybe", 0))
  ELSE IF op \in {"&&", "||"} /\ (IsConst(l) \/ IsConst(r)) THEN R(p, t, "no", "maybe", 0)
  ELSE IF op \in {"*", "&", "%"} /\ (IsConst(l) \/ IsConst(r)) THEN R(p, t, "no", "maybe", 0)
  ELSE Val(p, t)
ArithT(a, b) == IF K(a) \in FltKinds \/ K(b) \in FltKinds THEN DblT
                ELSE IF K(a) \in {"uint", "ulong"} \/ K(b) \in {"uint", "ulong"} THEN UIntT ELSE IntT
\* two pointers that may be compared or subtracted
PtrPair(a, b) == IsPtr(a) /\ IsPtr(b) /\ ~IsFn(a[3]) /\ ~IsFn(b[3]) /\ SameT(Unq(a[3]), Unq(b[3]))
EnumPair(a, b) == IsPtr(a) /\ IsPtr(b) /\ {K(a[3]), K(b[3])} = {"enum", "int"}
IncArr(a) == IsPtr(a) /\ K(a[3]) = "arr"
Binary(w, op, l0, r0) ==
  LET l == Value(l0)  r == Value(r0)  p == r.p IN
  IF l.o # "" THEN l ELSE IF r.o # "" THEN r
  ELSE CASE op \in {"*", "/"} -> IF IsArith(l.t) /\ IsArith(r.t) THEN Arith2(op, l, r, ArithT(l.t, r.t), p) ELSE Bad(p)
    [] op \in {"%", "&", "^", "|"} -> IF IsInt(l.t) /\ IsInt(r.t) THEN Arith2(op, l, r, ArithT(l.t, r.t), p) ELSE Bad(p)
    [] op \in {"<<", ">>"} -> IF IsInt(l.t) /\ IsInt(r.t) THEN Arith2(op, l, r, ArithT(l.t, IntT), p) ELSE Bad(p)
    [] op = "+" -> IF IsArith(l.t) /\ IsArith(r.t) THEN Arith2(op, l, r, ArithT(l.t, r.t), p)
                   ELSE LET q == IF IsPtr(l.t) THEN l ELSE r  n == IF IsPtr(l.t) THEN r ELSE l IN
                        IF ~(IsPtr(q.t) /\ IsInt(n.t)) THEN Bad(p)
                        ELSE IF ~Complete(w, q.t[3]) THEN Bad(p)
                        ELSE IF IsC(n) /\ q.c \in {"addr", "null"} THEN R(p, q.t, "no", "addr", 0)
                        ELSE IF IsConst(n) /\ IsConst(q) THEN R(p, q.t, "no", "maybe", 0) ELSE Val(p, q.t)
    [] op = "-" -> IF IsArith(l.t) /\ IsArith(r.t) THEN Arith2(op, l, r, ArithT(l.t, r.t), p)
                   ELSE IF IsPtr(l.t) /\ IsInt(r.t)
                   THEN (IF ~Complete(w, l.t[3]) THEN Bad(p)
                         ELSE IF IsC(r) /\ l.c \in {"addr", "null"} THEN R(p, l.t, "no", "addr", 0)
                         ELSE IF IsConst(l) /\ IsConst(r) THEN R(p, l.t, "no", "maybe", 0) ELSE Val(p, l.t))
                   ELSE IF PtrPair(l.t, r.t)
                   THEN (IF IncArr(l.t) /\ l.t # r.t THEN Free(p) ELSE IF ~Complete(w, l.t[3]) THEN Bad(p)
                         ELSE IF IsConst(l) /\ IsConst(r) THEN R(p, IntT, "no", "maybe", 0) ELSE Val(p, IntT))
                   ELSE IF EnumPair(l.t, r.t) THEN Free(p) ELSE Bad(p)
    [] op \in {"<", ">", "<=", ">="} ->
                   IF IsArith(l.t) /\ IsArith(r.t) THEN Arith2(op, l, r, IntT, p)
                   ELSE IF PtrPair(l.t, r.t)
                   THEN (IF IncArr(l.t) /\ l.t # r.t THEN Free(p) ELSE IF IsConst(l) /\ IsConst(r) THEN R(p, IntT, "no", "maybe", 0) ELSE Val(p, IntT))
                   ELSE IF EnumPair(l.t, r.t) THEN Free(p) ELSE Bad(p)
    [] op \in {"==", "!="} ->
                   IF IsArith(l.t) /\ IsArith(r.t) THEN Arith2(op, l, r, IntT, p)
                   ELSE LET ok == IF IsConst(l) /\ IsConst(r) THEN R(p, IntT, "no", "maybe", 0) ELSE Val(p, IntT) IN
                        IF (IsPtr(l.t) /\ IsNull(r)) \/ (IsPtr(r.t) /\ IsNull(l)) THEN ok
                        ELSE IF (IsPtr(l.t) /\ MaybeNull(r)) \/ (IsPtr(r.t) /\ MaybeNull(l)) THEN Free(p)
                        ELSE IF ~(IsPtr(l.t) /\ IsPtr(r.t)) THEN Bad(p)
                        ELSE IF (PVoid(l.t) /\ ~IsFn(r.t[3])) \/ (PVoid(r.t) /\ ~IsFn(l.t[3])) THEN ok
                        ELSE IF SameT(Unq(l.t[3]), Unq(r.t[3])) THEN ok
                        ELSE IF EnumPair(l.t, r.t) THEN Free(p) ELSE Bad(p)
    [] op \in {"&&", "||"} -> IF IsScalar(l.t) /\ IsScalar(r.t) THEN Arith2(op, l, r, IntT, p) ELSE Bad(p)

\* is the lvalue modifiable?
Modifiable(w, r) == r.lv # "no" /\ K(r.t) \notin {"arr", "fn"} /\ Complete(w, r.t) /\ ~HasConst(w, r.t)
\* assignment of the value r to l
Store(w, l, r0, p) ==
  LET r == Value(r0) IN
  IF r.o # "" THEN r
  ELSE LET a == Assign(w, l.t, r) IN
       IF a = "err" THEN Bad(p)
       ELSE IF ~Modifiable(w, l) THEN Bad(p)
       ELSE IF a = "free" THEN Free(p)
       ELSE Val(p, Unq(l.t))
AnyQual(a, b, t) == Ptr([t EXCEPT ![2] = a[3][2] \cup b[3][2]])
CondRes(w, c, l0, r0) ==
  LET l == Value(l0)  r == Value(r0)  p == r.p  x == EnumInt(l.t)  y == EnumInt(r.t)
      k == IF IsConst(c) \/ (IsConst(l) /\ IsConst(r)) THEN "maybe" ELSE "no"
      Ok(t) == R(p, t, "no", IF IsC(c) /\ IsC(l) /\ IsC(r) /\ IsInt(t) THEN "intq" ELSE k, 0)
  IN
  IF l.o # "" THEN l ELSE IF r.o # "" THEN r
  ELSE IF ~IsScalar(c.t) THEN Bad(p)
  ELSE IF IsArith(x) /\ IsArith(y)
       THEN (IF c.c = "int" /\ l.c = "int" /\ r.c = "int" /\ K(x) = "int" /\ K(y) = "int" THEN Num(p, IF c.v # 0 THEN l.v ELSE r.v) ELSE Ok(ArithT(x, y)))
  ELSE IF IsVoid(x) /\ IsVoid(y) THEN Ok(VoidT)
  ELSE IF IsSU(x) /\ IsSU(y) THEN (IF ~Complete(w, x) \/ ~Complete(w, y) THEN Free(p) ELSE IF x = y THEN Ok(x) ELSE Bad(p))
  ELSE IF IsPtr(x) /\ IsNull(r) THEN Ok(IF IsPtr(y) THEN AnyQual(x, y, x[3]) ELSE x)
  ELSE IF IsPtr(y) /\ IsNull(l) THEN Ok(IF IsPtr(x) THEN AnyQual(x, y, y[3]) ELSE y)
  ELSE IF (IsPtr(x) /\ MaybeNull(r)) \/ (IsPtr(y) /\ MaybeNull(l)) THEN Free(p)
  ELSE IF ~(IsPtr(x) /\ IsPtr(y)) THEN Bad(p)
  ELSE IF SameT(Unq(x[3]), Unq(y[3])) THEN Ok(AnyQual(x, y, Comp(Unq(x[3]), Unq(y[3]))))
  ELSE IF (IsVoid(x[3]) /\ ~IsFn(y[3])) \/ (IsVoid(y[3]) /\ ~IsFn(x[3])) THEN Ok(AnyQual(x, y, VoidT))
  ELSE IF EnumPair(x, y) THEN Free(p)
  ELSE Bad(p)
FieldOf(w, t, n) == SelectInSeq(Struct(w, t).flds, LAMBDA f : f.n = n)
CastRes(w, t, r0, p) ==
  LET r == Value(r0)  x == EnumInt(Unq(t))  y == EnumInt(r.t) IN
  IF r.o # "" THEN r
  ELSE IF IsVoid(x) THEN Val(p, VoidT)
  ELSE IF ~IsScalar(x) \/ ~IsScalar(y) THEN Bad(p)
  ELSE IF IsArith(x) /\ IsArith(y)
       THEN (IF IsInt(x) THEN (IF r.c = "int" /\ K(x) = "int" THEN R(p, x, "no", "int", r.v)
                               ELSE IF r.c = "int" /\ r.v >= 0 /\ r.v < 128 THEN R(p, x, "no", "int", r.v)
                               ELSE IF r.c \in {"int", "intq"} THEN R(p, x, "no", "intq", 0)
                               ELSE IF r.c = "flt" THEN R(p, x, "no", "intq", 0) ELSE R(p, x, "no", r.c, 0))
             ELSE R(p, x, "no", IF r.c \in {"int", "intq", "flt"} THEN "flt" ELSE r.c, 0))
  ELSE IF IsPtr(x) /\ IsPtr(y) THEN R(p, x, "no", IF r.c = "null" THEN (IF x = Ptr(VoidT) THEN "null" ELSE "addr") ELSE r.c, 0)
  ELSE IF IsPtr(x) /\ IsInt(y) THEN R(p, x, "no", IF r.c = "int" /\ r.v = 0 /\ x = Ptr(VoidT) THEN "null" ELSE IF IsC(r) THEN (IF x = Ptr(VoidT) /\ r.c = "intq" THEN "maybe" ELSE "addr") ELSE r.c, 0)
  ELSE IF IsInt(x) /\ IsPtr(y) THEN R(p, x, "no", IF IsConst(r) THEN "maybe" ELSE "no", 0)
  ELSE Bad(p)

RECURSIVE Expr(_, _), Asg(_, _), Cond(_, _), Bin(_, _, _), BinRest(_, _, _), Unary(_, _), Post(_, _), Prim(_, _), Args(_, _, _, _), Comma(_, _)
RECURSIVE Specs(_, _, _), SpecLoop(_, _), Tag(_, _), Fields(_, _, _), FieldLoop(_, _, _, _), Enums(_, _, _, _, _), Declr(_, _, _), Suffix(_, _, _, _), Params(_, _, _), TypeName(_, _)

Expr(w, i) == Comma(w, Asg(w, i))
Comma(w, r) == IF r.o = "" /\ X(r.p) = ","
               THEN (LET s == Asg(w, r.p + 1) IN
                     IF s.o # "" THEN s
                     ELSE Comma(w, [Value(s) EXCEPT !.c = IF IsConst(Value(s)) THEN "maybe" ELSE "no"]))
               ELSE r
Asg(w, i) ==
  LET l == Cond(w, i) IN
  IF l.o # "" \/ X(l.p) \notin AssignOps THEN l
  ELSE LET op == X(l.p)  r == Asg(w, l.p + 1) IN
       IF r.o # "" THEN r
       ELSE IF l.lv = "no" THEN Bad(r.p)
       ELSE IF op = "=" THEN Store(w, l, r, r.p)
       ELSE LET b == Binary(w, SubSeq(op, 1, Len(op) - 1), l, r) IN
            IF b.o # "" THEN b ELSE Store(w, l, [b EXCEPT !.c = "no"], r.p)
Cond(w, i) ==
  LET c == Bin(w, i, 1) IN
  IF c.o # "" \/ X(c.p) # "?" THEN c
  ELSE LET l == Expr(w, c.p + 1) IN
       IF l.o # "" THEN l
       ELSE IF X(l.p) # ":" THEN Bad(l.p)
       ELSE LET r == Cond(w, l.p + 1) IN CondRes(w, Value(c), l, r)
Bin(w, i, k) == IF k > 10 THEN Unary(w, i) ELSE BinRest(w, Bin(w, i, k + 1), k)
BinRest(w, l, k) ==
  IF l.o # "" \/ Prec(X(l.p)) # k THEN l
  ELSE LET r == Bin(w, l.p + 1, k + 1) IN IF r.o # "" THEN r ELSE BinRest(w, Binary(w, X(l.p), l, r), k)
IncDec(w, r, p) ==
  IF r.o # "" THEN r
  ELSE IF r.lv = "no" THEN Bad(p)
  ELSE IF ~IsScalar(r.t) \/ ~Modifiable(w, r) THEN Bad(p)
  ELSE IF IsPtr(r.t) /\ ~Complete(w, r.t[3]) THEN Bad(p)
  ELSE Val(p, Unq(r.t))
Unary(w, i) ==
  LET x == X(i) IN
  CASE x = "*" -> (LET r == Value(Unary(w, i + 1)) IN
                   IF r.o # "" THEN r ELSE IF ~IsPtr(r.t) THEN Bad(r.p)
                   ELSE IF IsVoid(r.t[3]) THEN Free(r.p)
                   ELSE [R(r.p, r.t[3], IF IsFn(r.t[3]) THEN "no" ELSE "lv", "no", 0) EXCEPT !.ac = r.c # "no" /\ r.c # "maybe"])
    [] x = "&" -> (LET r == Unary(w, i + 1) IN
                   IF r.o # "" THEN r
                   ELSE IF IsFn(r.t) THEN R(r.p, Ptr(r.t), "no", "addr", 0)
                   ELSE IF r.lv # "lv" THEN (IF K(r.t) = "arr" THEN Free(r.p) ELSE Bad(r.p))
                   ELSE IF r.reg THEN Bad(r.p)
                   ELSE R(r.p, Ptr(r.t), "no", IF r.ac THEN "addr" ELSE "no", 0))
    [] x \in {"+", "-", "~"} -> (LET r == Value(Unary(w, i + 1)) IN
                   IF r.o # "" THEN r
                   ELSE IF ~(IF x = "~" THEN IsInt(r.t) ELSE IsArith(r.t)) THEN Bad(r.p)
                   ELSE LET t == IF K(r.t) \in {"uint", "ulong"} THEN UIntT ELSE IF IsInt(r.t) THEN IntT ELSE DblT IN
                        IF r.c = "int" THEN (IF K(t) = "int" THEN Num(r.p, IF x = "-" THEN -r.v ELSE IF x = "~" THEN -r.v - 1 ELSE r.v) ELSE R(r.p, t, "no", "intq", 0))
                        ELSE R(r.p, t, "no", r.c, 0))
    [] x = "!" -> (LET r == Value(Unary(w, i + 1)) IN
                   IF r.o # "" THEN r ELSE IF ~IsScalar(r.t) THEN Bad(r.p)
                   ELSE IF r.c = "int" THEN Num(r.p, IF r.v = 0 THEN 1 ELSE 0)
                   ELSE R(r.p, IntT, "no", IF r.c = "intq" THEN "intq" ELSE IF r.c = "no" THEN "no" ELSE "maybe", 0))
    [] x \in {"++", "--"} -> (LET r == Unary(w, i + 1) IN IncDec(w, r, r.p))
    [] x = "sizeof" ->
         (LET tn == X(i + 1) = "(" /\ StartsType(w, i + 2)
              ty == TypeName(w, i + 2)
              e == Unary(w, i + 1)
              Res(t, p) == IF IsFn(t) \/ ~Complete(w, t) THEN Bad(p)
                           ELSE IF SizeOf(t) >= 0 THEN R(p, UIntT, "no", "int", SizeOf(t)) ELSE R(p, UIntT, "no", "intq", 0)
          IN IF tn THEN (IF ty.o # "" THEN ty ELSE IF X(ty.p) # ")" THEN Bad(ty.p) ELSE Res(ty.t, ty.p + 1))
             ELSE IF e.o # "" THEN e ELSE IF e.lv = "bf" THEN Bad(e.p) ELSE IF e.lv = "no" /\ X(e.p - 2) = "." THEN Free(e.p) ELSE Res(e.t, e.p))
    [] x = "(" /\ StartsType(w, i + 1) ->
         (LET ty == TypeName(w, i + 1) IN
          IF ty.o # "" THEN ty
          ELSE IF X(ty.p) # ")" THEN Bad(ty.p)
          ELSE LET r == Unary(w, ty.p + 1) IN IF r.o # "" THEN r ELSE CastRes(w, ty.t, r, r.p))
    [] OTHER -> Post(w, Prim(w, i))
Called(j) == X(j + 1) = "("
Prim(w, i) ==
  LET x == X(i) IN
  CASE x = "(" -> (LET r == Expr(w, i + 1) IN IF r.o # "" THEN r ELSE IF X(r.p) # ")" THEN Bad(r.p) ELSE [r EXCEPT !.p = @ + 1])
    [] x = "NUM" -> (IF S(i) = "u" THEN (IF V(i) <= Small THEN R(i + 1, UIntT, "no", "int", V(i)) ELSE R(i + 1, UIntT, "no", "intq", 0)) ELSE Num(i + 1, V(i)))
    [] x = "FLT" -> R(i + 1, DblT, "no", "flt", 0)
    [] x = "STR" -> (LET RECURSIVE Strs(_, _)
                         Strs(j, n) == IF X(j) = "STR" THEN Strs(j + 1, n + V(j)) ELSE <<j, n>>
                         e == Strs(i, 0)
                     IN [R(e[1], <<"arr", {}, CharT, e[2] + 1>>, "lv", "no", 0) EXCEPT !.ac = TRUE])
    [] x = "ID" ->
         (IF ~Has(w, S(i))
          THEN (IF S(i) \in DOMAIN w.ext THEN Free(i)               \* declared in a block that has ended
                ELSE IF Called(i) THEN [Val(i + 1, <<"fn", {}, IntT, <<>>, "old">>) EXCEPT !.c = "no"]
                ELSE IF \E j \in 1..(i - 1) : X(j) = "ID" /\ S(j) = S(i) /\ Called(j) THEN Free(i) ELSE Bad(i))
          ELSE LET e == Ent(w, S(i)) IN
               CASE e.e = "type" -> Bad(i)
                 [] e.e = "enumc" -> (IF e.v > 99999 THEN R(i + 1, IntT, "no", "intq", 0) ELSE Num(i + 1, e.v))
                 [] e.e = "fn" -> R(i + 1, e.t, "no", "no", 0)
                 [] OTHER -> [R(i + 1, e.t, "lv", "no", 0) EXCEPT !.ac = e.sc \in {"global", "static", "extern"}, !.reg = e.sc = "register"])
    [] OTHER -> Bad(i)
Post(w, r) ==
  IF r.o # "" THEN r
  ELSE LET x == X(r.p) IN
  CASE x \in {"++", "--"} -> Post(w, IncDec(w, r, r.p + 1))
    [] x = "[" ->
         (LET e == Expr(w, r.p + 1) IN
          IF e.o # "" THEN e
          ELSE IF X(e.p) # "]" THEN Bad(e.p)
          ELSE LET a == Value(r)  b == Value(e)  q == IF IsPtr(a.t) THEN a ELSE b  n == IF IsPtr(a.t) THEN b ELSE a  p == e.p + 1 IN
               IF ~(IsPtr(q.t) /\ IsInt(n.t)) \/ ~Complete(w, q.t[3]) THEN Bad(p)
               ELSE Post(w, [R(p, q.t[3], "lv", "no", 0) EXCEPT !.ac = IsC(n) /\ q.c \in {"addr", "null"}, !.reg = FALSE]))
    [] x = "(" ->
         (LET f == Value(r) IN
          IF ~PFn(f.t) THEN Bad(r.p)
          ELSE LET ft == f.t[3]  a == Args(w, r.p + 1, ft, 1) IN
               IF a.o # "" THEN a
               ELSE IF IsSU(ft[3]) /\ ~Complete(w, ft[3]) THEN Bad(a.p)
               ELSE Post(w, Val(a.p, Unq(ft[3]))))
    [] x \in {".", "->"} ->
         (LET f == IF x = "." THEN r ELSE Value(r)
              t == IF x = "." THEN r.t ELSE IF IsPtr(f.t) THEN f.t[3] ELSE IntT IN
          IF X(r.p + 1) # "ID" THEN Bad(r.p + 1)
          ELSE IF ~IsSU(t) THEN Bad(r.p + 1)
          ELSE LET k == FieldOf(w, t, S(r.p + 1)) IN
               IF k = 0 THEN Bad(r.p + 1)
               ELSE LET fd == Struct(w, t).flds[k]
                        ty == QualIn(fd.t, t[2])
                    IN Post(w, [R(r.p + 2, ty, IF x = "." /\ r.lv = "no" THEN "no" ELSE IF fd.bf THEN "bf" ELSE "lv", "no", 0)
                                EXCEPT !.ac = IF x = "." THEN r.ac ELSE f.c \in {"addr", "null"}, !.reg = x = "." /\ r.reg]))
    [] OTHER -> r
\* arguments from token i on: the result's position is behind the closing parenthesis
Args(w, i, ft, k) ==
  IF k = 1 /\ X(i) = ")"
  THEN (IF ft[5] # "old" /\ Len(ft[4]) > 0 THEN Bad(i) ELSE Val(i + 1, IntT))
  ELSE LET a == Value(Asg(w, i)) IN
       IF a.o # "" THEN a
       ELSE LET chk == IF ft[5] # "old" /\ k <= Len(ft[4]) THEN Assign(w, ft[4][k], a)
                       ELSE IF ft[5] = "no" THEN "err"
                       ELSE IF ~Complete(w, a.t) THEN "err" ELSE ""
            IN IF chk = "err" THEN Bad(a.p)
               ELSE IF chk = "free" THEN Free(a.p)
               ELSE IF X(a.p) = "," THEN Args(w, a.p + 1, ft, k + 1)
               ELSE IF X(a.p) # ")" THEN Bad(a.p)
               ELSE IF ft[5] # "old" /\ k < Len(ft[4]) THEN Bad(a.p)
               ELSE Val(a.p + 1, IntT)

(* ----------------------------- declarations ---------------------------- *)
\* results carry the scopes: [p, o, w, ...]
D(p, o, w) == [p |-> p, o |-> o, w |-> w, t |-> IntT, cls |-> "", tag |-> "", id |-> "", ip |-> 0, ops |-> <<>>, ps |-> <<>>, va |-> "", def |-> FALSE]
DErr(p, w) == D(p, "err", w)
DFree(p, w) == D(p, "free", w)

\* declaration specifiers from token i on.  ctx: "file" | "block" | "param" | "other" (no storage class).
\* Loop state a: [p, o, w, cls, q, sign, size, base ("" none), t, tag]
SpecLoop(a, ctx) ==
  LET i == a.p  x == X(i)  w == a.w
      Cont(b) == SpecLoop([b EXCEPT !.p = i + 1], ctx)
      Fail == [a EXCEPT !.o = "err"]
  IN
  IF a.o # "" THEN a
  ELSE CASE x \in ClassKw -> IF a.cls # "" \/ ctx = "other" THEN Fail
                             ELSE IF ctx = "file" /\ x \in {"auto", "register"} THEN Fail
                             ELSE Cont([a EXCEPT !.cls = x])
    [] x \in {"const", "volatile"} -> IF x \in a.q THEN Fail ELSE Cont([a EXCEPT !.q = @ \cup {x}])
    [] x \in {"signed", "unsigned"} -> IF a.sign # "" THEN Fail ELSE Cont([a EXCEPT !.sign = x])
    [] x \in {"short", "long"} -> IF a.size = "long" /\ x = "long" THEN [a EXCEPT !.o = "free"] ELSE IF a.size # "" THEN Fail ELSE Cont([a EXCEPT !.size = x])
    [] x \in {"void", "char", "int", "float", "double"} -> IF a.base # "" THEN Fail ELSE Cont([a EXCEPT !.base = x])
    [] x \in {"struct", "union", "enum"} ->
         (LET g == Tag(w, i) IN
          IF g.o # "" THEN [a EXCEPT !.o = g.o, !.p = g.p, !.w = g.w]
          ELSE IF a.base # "" THEN [Fail EXCEPT !.p = g.p]
          ELSE SpecLoop([a EXCEPT !.p = g.p, !.w = g.w, !.base = x, !.t = g.t, !.tag = g.tag, !.def = g.def], ctx))
    [] x = "ID" /\ IsTypeName(w, i) /\ a.base = "" /\ a.sign = "" /\ a.size = "" -> Cont([a EXCEPT !.base = "name", !.t = Ent(w, S(i)).t])
    [] OTHER -> a
RECURSIVE Qualify(_, _)
\* adds qualifiers: [o, t]
Qualify(q, t) == IF q = {} THEN [o |-> "", t |-> t]
                 ELSE IF K(t) = "arr" THEN (LET e == Qualify(q, t[3]) IN [o |-> e.o, t |-> [t EXCEPT ![3] = e.t]])
                 ELSE IF IsFn(t) THEN [o |-> "free", t |-> t]
                 ELSE IF q \cap t[2] # {} THEN [o |-> "err", t |-> t]
                 ELSE [o |-> "", t |-> [t EXCEPT ![2] = @ \cup q]]
Specs(w, i, ctx) ==
  LET a == SpecLoop([p |-> i, o |-> "", w |-> w, cls |-> "", q |-> {}, sign |-> "", size |-> "", base |-> "", t |-> IntT, tag |-> "", def |-> FALSE], ctx)
      b == IF a.base = "" THEN "int" ELSE a.base
      bad == \/ (a.size = "short" /\ b # "int") \/ (a.size = "long" /\ b \notin {"int", "double"}) \/ (a.sign # "" /\ b \notin {"int", "char"})
      t0 == CASE b = "char" -> <<IF a.sign = "unsigned" THEN "uchar" ELSE IF a.sign = "signed" THEN "schar" ELSE "char", {}>>
              [] b = "int" -> <<IF a.size = "short" THEN (IF a.sign = "unsigned" THEN "ushort" ELSE "short")
                                ELSE IF a.size = "long" THEN (IF a.sign = "unsigned" THEN "ulong" ELSE "long")
                                ELSE IF a.sign = "unsigned" THEN "uint" ELSE "int", {}>>
              [] b = "double" -> <<IF a.size = "long" THEN "ldouble" ELSE "double", {}>>
              [] b \in {"void", "float"} -> <<b, {}>>
              [] OTHER -> a.t
      qd == Qualify(a.q, t0)
  IN IF a.o # "" THEN D(a.p, a.o, a.w)
     ELSE IF a.p = i THEN DErr(i, w)
     ELSE IF bad THEN DErr(a.p, a.w)
     ELSE IF qd.o # "" THEN D(a.p, qd.o, a.w)
     ELSE [D(a.p, "", a.w) EXCEPT !.t = qd.t, !.cls = a.cls, !.tag = a.tag, !.def = a.base # ""]

\* struct, union or enum specifier at token i
TagAt(w, n) == Find(w.tags, n, Len(w.tags))
PutTag(w, n, e) == [w EXCEPT !.tags[Len(w.tags)] = (n :> e) @@ @]
NewSU(w, k, n) ==      \* a new incomplete type, in the innermost scope if it has a name
  LET id == w.nsu + 1
      w1 == [w EXCEPT !.nsu = id, !.su = (id :> [done |-> FALSE, flds |-> <<>>, open |-> FALSE]) @@ @]
  IN IF n = "" THEN w1 ELSE PutTag(w1, n, [k |-> k, id |-> id])
Tag(w, i) ==
  LET kw == X(i)  named == X(i + 1) = "ID"  n == IF named THEN S(i + 1) ELSE ""  j == IF named THEN i + 2 ELSE i + 1
      at == IF named THEN TagAt(w, n) ELSE 0
      old == w.tags[at][n]
      here == at = Len(w.tags)
      Res(p, ww, id) == [D(p, "", ww) EXCEPT !.t = <<kw, {}, id>>, !.tag = n]
      \* tags declared among parameters have a scope of their own
      par == Len(w.tags) > 1 /\ w.inpar > 0
  IN
  IF X(j) = "{"
  THEN IF par THEN DFree(j, w)
       ELSE IF here /\ (old.k # kw \/ kw = "enum") THEN DErr(j, w)
       ELSE IF here /\ (w.su[old.id].done \/ w.su[old.id].open) THEN DErr(j, w)
       ELSE IF kw = "enum"
       THEN (LET w1 == [w EXCEPT !.nsu = @ + 1]
                 w2 == IF named THEN PutTag(w1, n, [k |-> "enum", id |-> w1.nsu]) ELSE w1
                 e == Enums(w2, j + 1, w1.nsu, -1, TRUE)
             IN IF e.o # "" THEN e ELSE [Res(e.p, e.w, w1.nsu) EXCEPT !.tag = "(enum)"])
       ELSE (LET w1 == IF here THEN w ELSE NewSU(w, kw, n)
                 id == IF here THEN old.id ELSE w1.nsu
                 w2 == [w1 EXCEPT !.su[id].open = TRUE]
                 f == Fields(w2, j + 1, id)
             IN IF f.o # "" THEN f ELSE Res(f.p, [f.w EXCEPT !.su[id].done = TRUE], id))
  ELSE IF ~named THEN DErr(j, w)
  ELSE IF kw = "enum" THEN (IF at # 0 /\ old.k = "enum" THEN (IF X(j) = ";" THEN DErr(j, w) ELSE Res(j, w, old.id)) ELSE DErr(j, w))
  ELSE IF at # 0 /\ old.k = kw /\ (here \/ X(j) # ";") THEN Res(j, w, old.id)
  ELSE IF at # 0 /\ here THEN (IF old.k = kw THEN Res(j, w, old.id) ELSE DErr(j, w))
  ELSE IF par THEN DFree(j, w)
  ELSE LET w1 == NewSU(w, kw, n) IN Res(j, w1, w1.nsu)
\* enumerators; v: last value, known: whether it is
Enums(w, i, id, v, known) ==
  IF X(i) # "ID" THEN DErr(i, w)
  ELSE IF Here(w, S(i)) THEN DErr(i, w)
  ELSE IF Len(w.ids) = 3 /\ S(i) \in DOMAIN w.ids[2] THEN DErr(i, w)
  ELSE LET n == S(i)
           e == IF X(i + 1) = "=" THEN Cond(w, i + 2) ELSE R(i + 1, IntT, "no", IF known THEN "int" ELSE "intq", v + 1)
           val == Value(e)
           w1 == Put(w, n, [e |-> "enumc", t |-> IntT, sc |-> "", def |-> TRUE, v |-> IF val.c = "int" THEN val.v ELSE 100000])
       IN IF e.o # "" THEN D(e.p, e.o, w)
          ELSE IF X(i + 1) = "=" /\ (~IsInt(val.t) \/ val.c \in {"no", "flt", "addr", "null"}) THEN DErr(e.p, w)
          ELSE IF val.c \notin {"int", "intq"} THEN DFree(e.p, w)
          ELSE IF X(e.p) = "," THEN (IF X(e.p + 1) = "}" THEN DFree(e.p, w) ELSE Enums(w1, e.p + 1, id, val.v, val.c = "int"))
          ELSE IF X(e.p) = "}" THEN D(e.p + 1, "", w1)
          ELSE DErr(e.p, w)
\* members of the structure id, up to the closing brace
Fields(w, i, id) ==
  IF X(i) = "}" THEN (IF Len(w.su[id].flds) = 0 THEN DErr(i, w)
                      ELSE IF \A k \in 1..Len(w.su[id].flds) : w.su[id].flds[k].n = "" THEN DFree(i, w)
                      ELSE D(i + 1, "", w))
  ELSE IF ~StartsType(w, i) THEN DErr(i, w)
  ELSE LET s == Specs(w, i, "other") IN
       IF s.o # "" THEN s ELSE FieldLoop(s.w, s.p, s.t, id)
Apply1(w, op, t) ==    \* [o, t]
  CASE op[1] = "ptr" -> [o |-> "", t |-> <<"ptr", op[2], t>>]
    [] op[1] = "arr" -> IF IsFn(t) \/ IsVoid(t) THEN [o |-> "err", t |-> t]
                        ELSE IF K(t) = "arr" /\ t[4] = -1 THEN [o |-> "err", t |-> t]
                        ELSE IF ~Complete(w, t) THEN [o |-> "free", t |-> t]
                        ELSE [o |-> "", t |-> <<"arr", {}, t, op[3]>>]
    [] op[1] = "fn" -> IF IsFn(t) \/ K(t) = "arr" THEN [o |-> "err", t |-> t] ELSE [o |-> "", t |-> <<"fn", {}, t, op[3], op[4]>>]
Apply(w, ops, t) == FoldLeft(LAMBDA a, op : IF a.o # "" THEN a ELSE Apply1(w, op, a.t), [o |-> "", t |-> t], ops)
FieldLoop(w, i, t, id) ==
  LET d == IF X(i) = ":" THEN D(i, "", w) ELSE Declr(w, i, "plain")
      a == Apply(w, d.ops, t)
      bits == X(d.p) = ":"
      e == Cond(d.w, d.p + 1)
      ev == Value(e)
      p == IF bits THEN e.p ELSE d.p
      dup == d.id # "" /\ \E k \in 1..Len(d.w.su[id].flds) : d.w.su[id].flds[k].n = d.id
      w1 == [d.w EXCEPT !.su[id].flds = Append(@, [n |-> d.id, t |-> a.t, bf |-> bits])]
  IN
  IF d.o # "" THEN d
  ELSE IF a.o # "" THEN D(d.p, a.o, w)
  ELSE IF dup THEN DErr(d.p, w)
  ELSE IF bits /\ K(a.t) \notin {"int", "uint"} THEN DErr(d.p, w)
  ELSE IF bits /\ e.o # "" THEN D(e.p, e.o, w)
  ELSE IF bits /\ (~IsInt(ev.t) \/ ev.c \in {"no", "flt", "addr", "null"}) THEN DErr(e.p, w)
  ELSE IF bits /\ ev.c # "int" THEN DFree(e.p, w)
  ELSE IF bits /\ (ev.v < 0 \/ ev.v > 32) THEN DErr(e.p, w)
  ELSE IF bits /\ ev.v = 0 /\ d.id # "" THEN DFree(e.p, w)
  ELSE IF ~bits /\ d.id = "" THEN DErr(d.p, w)
  ELSE IF ~bits /\ (IsFn(a.t) \/ ~Complete(w, a.t)) THEN DErr(d.p, w)
  ELSE IF X(p) = "," THEN FieldLoop(w1, p + 1, t, id)
  ELSE IF X(p) = ";" THEN Fields(w1, p + 1, id)
  ELSE DErr(p, w)

\* declarator at token i; mode "plain" (a name is expected), "param" (may be abstract), "abstract" (no name).
\* ops: type constructors, the first one is applied first
Quals(i) == LET RECURSIVE Q(_, _)
                Q(j, q) == IF X(j) \in {"const", "volatile"} THEN (IF X(j) \in q THEN [p |-> j, q |-> q, o |-> "err"] ELSE Q(j + 1, q \cup {X(j)}))
                           ELSE [p |-> j, q |-> q, o |-> ""]
            IN Q(i, {})
Declr(w, i, mode) ==
  CASE X(i) = "*" ->
         (LET q == Quals(i + 1)  d == Declr(w, q.p, mode) IN
          IF q.o # "" THEN DErr(q.p, w)
          ELSE IF d.o # "" THEN d
          ELSE [d EXCEPT !.ops = <<<<"ptr", q.q>>>> \o @])
    [] X(i) = "ID" ->
         (IF mode = "abstract" THEN DErr(i, w)
          ELSE Suffix(w, i + 1, mode, [D(i + 1, "", w) EXCEPT !.id = S(i), !.ip = i]))
    [] X(i) = "(" ->
         (IF mode # "plain" /\ (X(i + 1) = ")" \/ StartsDecl(w, i + 1))
          THEN Suffix(w, i, mode, D(i, "", w))
          ELSE LET d == Declr(w, i + 1, mode) IN
               IF d.o # "" THEN d
               ELSE IF X(d.p) # ")" THEN DErr(d.p, w)
               ELSE IF d.id = "" /\ d.ops = <<>> THEN DErr(d.p, w)
               ELSE Suffix(d.w, d.p + 1, mode, d))
    [] X(i) = "[" -> (IF mode = "plain" THEN DErr(i, w) ELSE Suffix(w, i, mode, D(i, "", w)))
    [] OTHER -> D(i, "", w)
\* array and function suffixes after the inner declarator d
Suffix(w, i, mode, d) ==
  CASE X(i) = "[" ->
         (IF X(i + 1) = "]"
          THEN (LET s == Suffix(w, i + 2, mode, d) IN IF s.o # "" THEN s ELSE [s EXCEPT !.ops = SubSeq(@, 1, Len(@) - Len(d.ops)) \o <<<<"arr", {}, -1>>>> \o d.ops])
          ELSE LET e == Expr(w, i + 1)  v == Value(e) IN
               IF e.o # "" THEN D(e.p, e.o, w)
               ELSE IF X(e.p) # "]" THEN DErr(e.p, w)
               ELSE IF ~IsInt(v.t) \/ v.c \in {"no", "flt", "addr", "null"} THEN DErr(e.p, w)
               ELSE IF v.c # "int" THEN DFree(e.p, w)
               ELSE IF v.v <= 0 THEN DErr(e.p, w)
               ELSE LET s == Suffix(w, e.p + 1, mode, d) IN
                    IF s.o # "" THEN s ELSE [s EXCEPT !.ops = SubSeq(@, 1, Len(@) - Len(d.ops)) \o <<<<"arr", {}, v.v>>>> \o d.ops])
    [] X(i) = "(" ->
         (IF X(i + 1) = "ID" /\ ~IsTypeName(w, i + 1) THEN DFree(i, w)       \* old style parameter list
          ELSE IF X(i + 1) = ")"
          THEN (LET s == Suffix(w, i + 2, mode, d) IN
                IF s.o # "" THEN s ELSE [s EXCEPT !.ops = SubSeq(@, 1, Len(@) - Len(d.ops)) \o <<<<"fn", {}, <<>>, "old">>>> \o d.ops,
                                                  !.ps = <<>>, !.va = "old"])
          ELSE LET ps == Params([Push(w) EXCEPT !.inpar = @ + 1], i + 1, <<>>) IN
               IF ps.o # "" THEN ps
               ELSE LET w1 == [Pop(ps.w) EXCEPT !.inpar = w.inpar]
                        s == Suffix(w1, ps.p, mode, d) IN
                    IF s.o # "" THEN s
                    ELSE [s EXCEPT !.ops = SubSeq(@, 1, Len(@) - Len(d.ops)) \o <<<<"fn", {}, [k \in 1..Len(ps.ps) |-> ps.ps[k].t], ps.va>>>> \o d.ops,
                                   !.ps = ps.ps, !.va = ps.va])
    [] OTHER -> [d EXCEPT !.p = i, !.w = w]
\* parameter declarations from token i on, acc: those before; the position of the result is behind the parenthesis
Params(w, i, acc) ==
  IF X(i) = "..." THEN (IF Len(acc) = 0 THEN DErr(i, w)
                        ELSE IF X(i + 1) # ")" THEN DErr(i + 1, w)
                        ELSE [D(i + 2, "", w) EXCEPT !.ps = acc, !.va = "va"])
  ELSE IF ~(StartsType(w, i) \/ X(i) = "register") THEN DErr(i, w)
  ELSE LET s == Specs(w, i, "param") IN
  IF s.o # "" THEN s
  ELSE LET d == Declr(s.w, s.p, "param") IN
  IF d.o # "" THEN d
  ELSE LET a == Apply(d.w, d.ops, s.t) IN
  IF a.o # "" THEN D(d.p, a.o, w)
  ELSE IF IsVoid(a.t)
  THEN (IF a.t[2] # {} \/ s.cls # "" THEN DFree(d.p, w)
        ELSE IF Len(acc) > 0 \/ d.id # "" THEN DErr(d.p, w)
        ELSE IF X(d.p) # ")" THEN DErr(d.p, w)
        ELSE [D(d.p + 1, "", d.w) EXCEPT !.ps = <<>>, !.va = "no"])
  ELSE LET t == IF K(a.t) = "arr" THEN Ptr(a.t[3]) ELSE IF IsFn(a.t) THEN Ptr(a.t) ELSE a.t
           w1 == IF d.id = "" THEN d.w ELSE Put(d.w, d.id, [e |-> "var", t |-> t, sc |-> "auto", def |-> TRUE, v |-> 0])
           reg == IF s.cls = "register" THEN (IF IsSU(t) \/ "volatile" \in t[2] THEN "maybe" ELSE "register") ELSE "auto"
           acc1 == Append(acc, [n |-> d.id, t |-> t, reg |-> reg])
       IN
       IF s.cls \notin {"", "register"} THEN DErr(d.p, w)
       ELSE IF d.id # "" /\ Here(d.w, d.id) THEN DErr(d.p, w)
       ELSE IF X(d.p) = "," THEN Params(w1, d.p + 1, acc1)
       ELSE IF X(d.p) = ")" THEN [D(d.p + 1, "", w1) EXCEPT !.ps = acc1, !.va = "no"]
       ELSE DErr(d.p, w)
\* a type name: result like an expression's, with the type
TypeName(w, i) ==
  LET s == Specs(w, i, "other") IN
  IF s.o # "" THEN [Bad(s.p) EXCEPT !.o = s.o]
  ELSE IF s.w # w THEN Free(s.p)              \* declares a tag
  ELSE LET d == Declr(s.w, s.p, "abstract")  a == Apply(s.w, d.ops, s.t) IN
       IF d.o # "" THEN [Bad(d.p) EXCEPT !.o = d.o]
       ELSE IF a.o # "" THEN [Bad(d.p) EXCEPT !.o = a.o]
       ELSE Val(d.p, a.t)

(* ----------------------------- initialisers ---------------------------- *)
\* results [p, o, t]: position, outcome, completed type
I3(p, o, t) == [p |-> p, o |-> o, t |-> t]
ConstInit(r) == r.c \in {"int", "intq", "flt", "addr", "null"}
RECURSIVE Init1(_, _, _, _), InitMembers(_, _, _, _, _), InitArr(_, _, _, _, _, _)
InitScalar(w, i, t, static) ==
  LET br == X(i) = "{"  e == Asg(w, IF br THEN i + 1 ELSE i)  r == Value(e)
      q == IF br /\ e.o = "" /\ X(e.p) = "," THEN e.p + 1 ELSE e.p
      a == Assign(w, t, r)
  IN IF e.o # "" THEN I3(e.p, e.o, t)
     ELSE IF br /\ X(q) # "}" THEN I3(q, "err", t)
     ELSE IF a = "err" THEN I3(q + (IF br THEN 1 ELSE 0), "err", t)
     ELSE IF static /\ r.c = "maybe" THEN I3(q, "free", t)
     ELSE IF static /\ ~ConstInit(r) THEN I3(q + (IF br THEN 1 ELSE 0), "err", t)
     ELSE IF a = "free" THEN I3(q, "free", t)
     ELSE I3(IF br THEN q + 1 ELSE q, "", t)
Named(f) == SelectSeq(f, LAMBDA x : x.n # "")
\* t is an aggregate or a scalar with constant initialisers; top: not inside braces
Init1(w, i, t, top) ==
  IF IsScalar(t) THEN InitScalar(w, i, t, TRUE)
  ELSE IF IsSU(t) /\ ~Complete(w, t) THEN I3(i, "err", t)
  ELSE IF ~IsSU(t) /\ K(t) # "arr" THEN I3(i, "err", t)
  ELSE IF IsSU(t)
  THEN LET fl == Named(Struct(w, t).flds)  ms == IF K(t) = "union" THEN SubSeq(fl, 1, 1) ELSE fl IN
       IF Struct(w, t).flds[1].n = "" /\ K(t) = "union" THEN I3(i, "free", t)
       ELSE IF X(i) = "{" THEN
         (LET r == InitMembers(w, i + 1, ms, TRUE, 1) IN
          IF r.o # "" THEN r ELSE IF X(r.p) # "}" THEN I3(r.p, "err", t) ELSE I3(r.p + 1, "", t))
       ELSE IF top THEN I3(i, "err", t)
       ELSE LET r == InitMembers(w, i, ms, FALSE, 1) IN [r EXCEPT !.t = t]
  ELSE LET e == t[3]  chars == K(e) \in {"char", "schar", "uchar"}
           br == X(i) = "{"
           j == IF br THEN i + 1 ELSE i
           RECURSIVE Strs(_, _)
           Strs(k, n) == IF X(k) = "STR" THEN Strs(k + 1, n + V(k)) ELSE <<k, n>>
           s == Strs(j, 0)
           q == IF br /\ X(s[1]) = "," THEN s[1] + 1 ELSE s[1]
       IN IF chars /\ X(j) = "STR"
          THEN (IF br /\ X(q) # "}" THEN I3(q, IF X(q) \in {";", "EOF", "STR", "NUM"} THEN "err" ELSE "free", t)
                ELSE IF ~br /\ X(s[1]) \notin {",", ";", "}"} THEN I3(s[1], "free", t)
                ELSE IF t[4] # -1 /\ s[2] > t[4] THEN I3(q, "err", t)
                ELSE I3(IF br THEN q + 1 ELSE s[1], "", <<"arr", {}, e, IF t[4] = -1 THEN s[2] + 1 ELSE t[4]>>))
          ELSE IF br THEN
            (LET r == InitArr(w, j, t, TRUE, 0, chars) IN
             IF r.o # "" THEN r ELSE IF X(r.p) # "}" THEN I3(r.p, "err", t) ELSE I3(r.p + 1, "", r.t))
          ELSE IF top \/ t[4] = -1 THEN I3(i, "err", t)
          ELSE InitArr(w, i, t, FALSE, 0, chars)
\* members ms[k..]
InitMembers(w, i, ms, braced, k) ==
  IF k > Len(ms) THEN I3(i, "err", IntT)               \* too many
  ELSE IF ms[k].bf /\ X(i) = "{" THEN I3(i, "free", IntT)
  ELSE LET r0 == Init1(w, i, IF ms[k].bf THEN IntT ELSE ms[k].t, FALSE) IN
       IF r0.o # "" THEN r0
       ELSE IF X(r0.p) = "," /\ braced THEN (IF X(r0.p + 1) = "}" THEN I3(r0.p + 1, "", IntT) ELSE InitMembers(w, r0.p + 1, ms, braced, k + 1))
       ELSE IF X(r0.p) = "," /\ k < Len(ms) THEN (IF X(r0.p + 1) = "}" THEN I3(r0.p + 1, "", IntT) ELSE InitMembers(w, r0.p + 1, ms, braced, k + 1))
       ELSE I3(r0.p, "", IntT)
\* elements, n: those before
InitArr(w, i, t, braced, n, chars) ==
  IF t[4] # -1 /\ n >= t[4] THEN I3(i, "err", t)
  ELSE IF chars /\ X(i) = "{" THEN I3(i, "free", t)
  ELSE LET r == Init1(w, i, t[3], FALSE)
           done == I3(r.p, "", IF t[4] = -1 THEN [t EXCEPT ![4] = n + 1] ELSE t) IN
       IF r.o # "" THEN r
       ELSE IF X(r.p) = "," /\ (braced \/ n + 1 < t[4])
       THEN (IF X(r.p + 1) = "}" THEN [done EXCEPT !.p = r.p + 1] ELSE InitArr(w, r.p + 1, t, braced, n + 1, chars))
       ELSE done
\* initialiser of a declared object, i: the token after "=" ; auto: automatic storage
Init0(w, i, t, auto) ==
  IF ~auto THEN (IF HasShort(w, t) THEN I3(i, "free", t) ELSE Init1(w, i, t, TRUE))
  ELSE IF IsScalar(t) THEN InitScalar(w, i, t, FALSE)
  ELSE IF IsSU(t) /\ X(i) # "{"
  THEN (LET e == Asg(w, i)  r == Value(e) IN
        IF e.o # "" THEN I3(e.p, e.o, t)
        ELSE LET a == Assign(w, t, r) IN I3(e.p, a, t))
  ELSE IF K(t) # "arr" /\ ~IsSU(t) THEN I3(i, "err", t)
  ELSE IF HasShort(w, t) THEN I3(i, "free", t)
  ELSE Init1(w, i, t, TRUE)

(* ------------------------------- machine ------------------------------- *)
Start == [p |-> 1, ph |-> "ext", w |-> [ids |-> <<<<>>>>, tags |-> <<<<>>>>, su |-> <<>>, nsu |-> 0, inpar |-> 0, ext |-> <<>>],
          stk |-> <<>>, ret |-> IntT, labs |-> {}, gotos |-> {}, gl |-> 0, im |-> {}, used |-> {}, maybe |-> {}, from |-> 1,
          sp |-> IntT, cls |-> "", out |-> "", lo |-> 0, hi |-> 0,
          first |-> FALSE, verdict |-> ""]
\* the first violation, apparent at token p: reported somewhere between the beginning of the construct and the token after p
\* (the end of the unit is on no line of its own)
Invalid(s, p) == [s EXCEPT !.ph = "end", !.out = "invalid", !.lo = IF s.from > NT \/ X(s.from) = "EOF" THEN Line(NT - 1) ELSE Line(s.from), !.hi = Line(p + 1), !.p = p]
Unclear(s, p) == [s EXCEPT !.ph = "end", !.out = "free", !.p = p]
Outc(s, o, p) == IF o = "err" THEN Invalid(s, p) ELSE Unclear(s, p)
\* names called without a declaration, and uses of file scope functions, between two tokens
Notice(s, a, b) ==
  LET ns == {k \in a..(b - 1) : X(k) = "ID" /\ ~(k > 1 /\ X(k - 1) \in {".", "->", "struct", "union", "enum"})}
      sz == \E k \in a..(b - 1) : X(k) = "sizeof"
      fns == {S(k) : k \in {j \in ns : Has(s.w, S(j)) /\ Find(s.w.ids, S(j), Top(s.w)) = 1}}
  IN [s EXCEPT !.im = @ \cup {S(k) : k \in {j \in ns : ~Has(s.w, S(j)) /\ Called(j)}},
               !.used = IF sz THEN @ ELSE @ \cup fns, !.maybe = IF sz THEN @ \cup fns ELSE @]

\* a declarator has been read: the name enters the scope.  [o, w, t]
Declare(s, w, cls, id, t, file, init) ==
  LET here == Here(w, id)
      old == w.ids[Top(w)][id]
      inpar == Top(w) = 3 /\ id \in DOMAIN w.ids[2]
      Ok(e) == [o |-> "", w |-> Put(w, id, e)]
      Err == [o |-> "err", w |-> w]
      Fr == [o |-> "free", w |-> w]
  IN
  IF cls = "typedef" THEN (IF here \/ inpar THEN Err ELSE Ok([e |-> "type", t |-> t, sc |-> "", def |-> TRUE, v |-> 0]))
  ELSE IF id \in s.im THEN Fr
  ELSE IF file
  THEN LET sc == IF cls = "" THEN "global" ELSE cls
           knd == IF IsFn(t) THEN "fn" ELSE "var"
           t1 == Comp(t, old.t)
       IN
       IF ~here THEN (IF init /\ IsFn(t) THEN Err
                      ELSE IF sc = "static" /\ ~IsFn(t) /\ ~init /\ ~Complete(w, t) THEN Fr
                      ELSE IF IsVoid(t) /\ sc = "extern" THEN Fr
                      ELSE Ok([e |-> knd, t |-> t, sc |-> sc, def |-> init, v |-> 0]))
       ELSE IF old.e \in {"type", "enumc"} \/ ~SameT(t, old.t) THEN Err
       ELSE IF init /\ (IsFn(t) \/ old.def) THEN Err
       ELSE IF (old.sc = "extern" /\ sc = "static") \/ (old.sc = "static" /\ sc = "global" /\ ~IsFn(t)) \/ (old.sc = "global" /\ sc = "static") THEN Fr
       ELSE IF sc = "static" /\ ~IsFn(t) /\ ~init /\ ~Complete(w, t1) THEN Fr
       ELSE Ok([old EXCEPT !.t = t1, !.sc = IF old.sc = "extern" THEN sc ELSE old.sc, !.def = @ \/ init])
  ELSE LET sc == IF cls # "" THEN cls ELSE IF IsFn(t) THEN "extern" ELSE "auto"
           glob == id \in DOMAIN w.ids[1]
           g == w.ids[1][id]
       IN
       IF IsFn(t) /\ sc # "extern" THEN Err
       ELSE IF inpar THEN Err
       ELSE IF here /\ ~(sc = "extern" /\ old.sc = "extern" /\ old.e \in {"var", "fn"} /\ SameT(t, old.t)) THEN Err
       ELSE IF sc = "extern" /\ init THEN Err
       ELSE IF sc = "extern" /\ here THEN Fr
       ELSE IF sc = "extern" /\ glob /\ (g.e \notin {"var", "fn"} \/ g.sc = "static" \/ ~SameT(g.t, t)) THEN Fr
       ELSE IF sc = "extern"
       THEN \* the type is composed with that of a visible declaration of the same object or function
            LET ks == {k \in 1..(Top(w) - 1) : id \in DOMAIN w.ids[k]}
                k0 == IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k
                o == w.ids[k0][id] IN
            IF k0 > 1 /\ (o.sc # "extern" \/ o.e \notin {"var", "fn"} \/ ~SameT(o.t, t)) THEN Fr
            ELSE IF k0 = 0 /\ id \in DOMAIN w.ext /\ ~SameT(w.ext[id], t) THEN Fr
            ELSE LET t1 == IF k0 = 0 THEN t ELSE Comp(t, o.t) IN
                 [o |-> "", w |-> [Put(w, id, [e |-> IF IsFn(t) THEN "fn" ELSE "var", t |-> t1, sc |-> "extern", def |-> FALSE, v |-> 0])
                                   EXCEPT !.ext = (id :> (IF id \in DOMAIN @ THEN Comp(@[id], t1) ELSE t1)) @@ @]]
       ELSE IF ~init /\ ~Complete(w, t) THEN Err
       ELSE Ok([e |-> "var", t |-> t, sc |-> IF sc = "register" /\ (IsSU(t) \/ K(t) = "arr" \/ "volatile" \in t[2]) THEN "regmaybe" ELSE sc, def |-> TRUE, v |-> 0])

SemiAt(i) == LET ks == {k \in i..NT : X(k) = ";"} IN IF ks = {} THEN NT ELSE CHOOSE k \in ks : \A j \in ks : k <= j
\* the rest of a declaration: s.sp, s.cls are the specifiers, token i begins a declarator
AfterDeclr(s, d, t, file) ==
  LET init == X(d.p) = "="
      e == Declare(s, d.w, s.cls, d.id, t, file, init /\ s.cls # "typedef")
      auto == ~file /\ s.cls \notin {"static", "extern"}
      n == Init0(e.w, d.p + 1, t, auto)
      w1 == [e.w EXCEPT !.ids[Top(e.w)][d.id].t = IF K(t) = "arr" /\ t[4] = -1 THEN n.t ELSE @]
      q == IF init /\ s.cls # "typedef" THEN n.p ELSE d.p
      w2 == IF init /\ s.cls # "typedef" THEN w1 ELSE e.w
      s1 == LET a == Notice([s EXCEPT !.w = w2, !.p = q], s.p, d.p) IN Notice([a EXCEPT !.used = s.used, !.maybe = IF d.id \in s.maybe THEN @ \cup a.used ELSE (@ \cup a.used) \ {d.id}], d.p, q)
  IN IF e.o # "" THEN Outc(s, e.o, d.p)
     ELSE IF init /\ s.cls = "typedef" THEN Invalid(s, d.p)
     ELSE IF init /\ n.o = "err" THEN [Invalid(s, n.p) EXCEPT !.hi = Line(SemiAt(n.p) + 1)]
     ELSE IF init /\ n.o # "" THEN Outc(s, n.o, n.p)
     ELSE IF init /\ ~Complete(e.w, n.t) THEN Outc(s, "err", n.p)
     ELSE IF X(q) = "," THEN [s1 EXCEPT !.p = q + 1]
     ELSE IF X(q) = ";" THEN [s1 EXCEPT !.p = q + 1, !.ph = IF file THEN "ext" ELSE "stmt"]
     ELSE IF file /\ X(q) \in {"ID", "*", "("} THEN Invalid(s, q)
     ELSE Invalid(s, q)
Declarators(s, file) ==
  LET d == Declr(s.w, s.p, "plain")  a == Apply(d.w, d.ops, s.sp)  t == a.t
      \* a function definition: the declarator's outermost constructor is the function's
      fdef == file /\ s.first /\ d.id # "" /\ IsFn(t) /\ Len(d.ops) > 0 /\ d.ops[Len(d.ops)][1] = "fn" /\ X(d.p) = "{"
      odd == file /\ s.first /\ d.id # "" /\ Len(d.ops) > 0 /\ d.ops[Len(d.ops)][1] = "fn" /\ StartsDecl(d.w, d.p)
      old == d.w.ids[1][d.id]
      isold == Here(d.w, d.id)
      e == Declare([s EXCEPT !.cls = ""], d.w, s.cls, d.id, t, TRUE, FALSE)
      ps == d.ps
      w1 == Push([e.w EXCEPT !.ids[1][d.id].def = TRUE])
      w2 == FoldLeft(LAMBDA w, q : Put(w, q.n, [e |-> "var", t |-> q.t, sc |-> IF q.reg = "maybe" THEN "regmaybe" ELSE q.reg, def |-> TRUE, v |-> 0]), w1, ps)
      s1 == [s EXCEPT !.first = FALSE, !.from = s.p]
  IN IF d.o = "err" THEN [Invalid(s, d.p) EXCEPT !.hi = Line(d.p + 10)]      \* (a missing name is noticed behind what remains of the declarator)
     ELSE IF d.o # "" THEN Outc(s, d.o, d.p)
     ELSE IF a.o # "" THEN Outc(s, a.o, d.p)
     ELSE IF d.id = "" THEN Invalid(s, d.p)
     ELSE IF fdef
     THEN (IF s.cls = "typedef" THEN Invalid(s, d.p)
           ELSE IF \E k \in 1..Len(ps) : ps[k].n = "" \/ ~Complete(d.w, ps[k].t) THEN Invalid(s, d.p)
           ELSE IF ~IsVoid(t[3]) /\ ~Complete(d.w, t[3]) THEN Invalid(s, d.p)
           ELSE IF t[3][2] # {} /\ IsVoid(t[3]) THEN Unclear(s, d.p)
           ELSE IF isold /\ old.e = "fn" /\ old.def THEN Invalid(s, d.p)
           ELSE IF e.o # "" THEN Outc(s, e.o, d.p)
           ELSE [s1 EXCEPT !.w = Push(w2), !.p = d.p + 1, !.ph = "stmt", !.stk = <<[k |-> "blk", dec |-> TRUE]>>, !.ret = t[3], !.labs = {}, !.gotos = {}, !.gl = 0, !.from = d.p])
     ELSE IF odd THEN (IF d.ops[Len(d.ops)][4] = "old" THEN Unclear(s, d.p) ELSE Invalid(s, d.p))
     ELSE AfterDeclr(s1, d, t, file)
\* a declaration begins at s.p
BeginDecl(s, file) ==
  LET d == Specs(s.w, s.p, IF file THEN "file" ELSE "block")
      s1 == [s EXCEPT !.from = s.p, !.w = d.w, !.p = d.p, !.sp = d.t, !.cls = d.cls, !.ph = IF file THEN "fdecl" ELSE "bdecl", !.first = TRUE]
      s2 == [s EXCEPT !.from = s.p]
  IN IF d.o = "err" THEN [Invalid(s2, d.p) EXCEPT !.hi = Line(d.p + 10)]
     ELSE IF d.o # "" THEN Outc(s2, d.o, d.p)
     ELSE IF X(d.p) \in {"ID", "*", "(", "["} THEN s1
     \* no declarator: only for tags and enumerators
     ELSE IF d.tag = "" THEN (IF X(d.p) = ";" /\ IsSU(d.t) THEN Unclear(s2, d.p) ELSE Invalid(s2, d.p))
     ELSE IF X(d.p) = ";" THEN (IF d.cls # "" \/ d.t[2] # {} THEN Unclear(s2, d.p) ELSE [s1 EXCEPT !.p = d.p + 1, !.ph = s.ph])
     ELSE Invalid(s2, d.p)

(* ------------------------------ statements ----------------------------- *)
TopF(s) == s.stk[Len(s.stk)]
PopF(s) == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
PushF(s, f) == [s EXCEPT !.stk = Append(@, f)]
InLoop(s) == \E k \in 1..Len(s.stk) : s.stk[k].k \in {"while", "for", "do"}
SwitchAt(s) == LET ks == {k \in 1..Len(s.stk) : s.stk[k].k = "switch"} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k
At(s, p) == [s EXCEPT !.p = p]
\* a statement has been completed: what it was part of continues
RECURSIVE Done(_)
Done(s) ==
  IF s.stk = <<>> THEN s
  ELSE LET f == TopF(s) IN
  CASE f.k = "blk" -> [s EXCEPT !.stk[Len(s.stk)].dec = FALSE, !.ph = "stmt"]
    [] f.k \in {"label", "else", "while", "for", "switch"} -> Done(PopF(s))
    [] f.k = "if" -> IF X(s.p) = "else" THEN At(PushF(PopF(s), [k |-> "else"]), s.p + 1) ELSE Done(PopF(s))
    [] f.k = "do" ->
         IF X(s.p) # "while" THEN Invalid([s EXCEPT !.from = s.p], s.p)
         ELSE IF X(s.p + 1) # "(" THEN Invalid([s EXCEPT !.from = s.p], s.p + 1)
         ELSE LET e == Expr(s.w, s.p + 2)  r == Value(e)  s1 == [s EXCEPT !.from = s.p] IN
              IF e.o # "" THEN Outc(s1, e.o, e.p)
              ELSE IF ~IsScalar(r.t) THEN Invalid(s1, e.p)
              ELSE IF X(e.p) # ")" THEN Invalid(s1, e.p)
              ELSE IF X(e.p + 1) # ";" THEN Invalid(s1, e.p + 1)
              ELSE Done(At(PopF(Notice(s, s.p, e.p)), e.p + 2))
\* "(" expression ")" after the keyword at s.p
Paren(s, Test(_), Then(_, _)) ==
  IF X(s.p + 1) # "(" THEN Invalid(s, s.p + 1)
  ELSE LET e == Expr(s.w, s.p + 2)  r == Value(e) IN
       IF e.o # "" THEN Outc(s, e.o, e.p)
       ELSE IF ~Test(r.t) THEN Invalid(s, e.p)
       ELSE IF X(e.p) # ")" THEN Invalid(s, e.p)
       ELSE Then(At(Notice(s, s.p, e.p), e.p + 1), r)
\* an optional expression that ends before token tok: [p, o]
Opt(s, i, tok, scalar) ==
  IF X(i) = tok THEN [p |-> i + 1, o |-> ""]
  ELSE LET e == Expr(s.w, i) IN
       IF e.o # "" THEN [p |-> e.p, o |-> e.o]
       ELSE IF scalar /\ ~IsScalar(Value(e).t) THEN [p |-> e.p, o |-> "err"]
       ELSE IF X(e.p) # tok THEN [p |-> e.p, o |-> "err"]
       ELSE [p |-> e.p + 1, o |-> ""]
Semi(s, p) == IF X(p) = ";" THEN Done(At(s, p + 1)) ELSE Invalid(s, p)
FnEnd(s) ==
  IF ~(s.gotos \subseteq s.labs) THEN [Invalid([s EXCEPT !.from = s.p], s.p + 1) EXCEPT !.lo = Line(s.gl)]
  ELSE [s EXCEPT !.p = @ + 1, !.ph = "ext", !.stk = <<>>, !.w = Pop(Pop(@))]
Stmt(s0) ==
  LET s == [s0 EXCEPT !.from = s0.p]  i == s.p  x == X(i)  f == TopF(s) IN
  IF x = "}"
  THEN (IF f.k # "blk" THEN Invalid(s, i)
        ELSE IF Len(s.stk) = 1 THEN FnEnd(s)
        ELSE Done(At([PopF(s) EXCEPT !.w = Pop(@)], i + 1)))
  ELSE IF x = "EOF" THEN (IF s.gotos \subseteq s.labs THEN Invalid(s, i) ELSE [Invalid(s, i) EXCEPT !.lo = Line(s.gl)])
  ELSE IF f.k = "blk" /\ f.dec /\ StartsDecl(s.w, i) /\ X(i + 1) # ":" THEN BeginDecl(s, FALSE)
  ELSE LET s1 == IF f.k = "blk" THEN [s EXCEPT !.stk[Len(s.stk)].dec = FALSE] ELSE s IN
  CASE x = "{" -> At([PushF(s1, [k |-> "blk", dec |-> TRUE]) EXCEPT !.w = Push(@)], i + 1)
    [] x = ";" -> Done(At(s1, i + 1))
    [] x = "if" -> Paren(s1, IsScalar, LAMBDA a, r : PushF(a, [k |-> "if"]))
    [] x = "while" -> Paren(s1, IsScalar, LAMBDA a, r : PushF(a, [k |-> "while"]))
    [] x = "switch" -> Paren(s1, IsInt, LAMBDA a, r : PushF(a, [k |-> "switch", vals |-> {}, def |-> FALSE]))
    [] x = "do" -> At(PushF(s1, [k |-> "do"]), i + 1)
    [] x = "for" ->
         (IF X(i + 1) # "(" THEN Invalid(s1, i + 1)
          ELSE LET a == Opt(s, i + 2, ";", FALSE) IN
               IF a.o # "" THEN Outc(s, a.o, a.p)
               ELSE LET b == Opt(s, a.p, ";", TRUE) IN
                    IF b.o # "" THEN Outc(s, b.o, b.p)
                    ELSE LET c == Opt(s, b.p, ")", FALSE) IN
                         IF c.o # "" THEN Outc(s, c.o, c.p) ELSE At(PushF(Notice(s1, i, c.p), [k |-> "for"]), c.p))
    [] x = "break" -> IF ~InLoop(s) /\ SwitchAt(s) = 0 THEN Invalid(s, i) ELSE Semi(s1, i + 1)
    [] x = "continue" -> IF ~InLoop(s) THEN Invalid(s, i) ELSE Semi(s1, i + 1)
    [] x = "return" ->
         (IF X(i + 1) = ";" THEN Done(At(s1, i + 2))
          ELSE IF IsVoid(s.ret) THEN Invalid(s, i + 1)
          ELSE LET e == Expr(s.w, i + 1)  r == Value(e) IN
               IF e.o # "" THEN Outc(s, e.o, e.p)
               ELSE LET a == Assign(s.w, s.ret, r) IN IF a # "" THEN Outc(s, a, e.p) ELSE Semi(Notice(s1, i, e.p), e.p))
    [] x = "goto" -> IF X(i + 1) # "ID" THEN Invalid(s, i + 1) ELSE Semi([s1 EXCEPT !.gotos = @ \cup {S(i + 1)}, !.gl = IF @ = 0 THEN i ELSE @], i + 2)
    [] x = "case" ->
         (LET e == Cond(s.w, i + 1)  r == Value(e)  k == SwitchAt(s) IN
          IF k = 0 THEN Invalid(s, i)
          ELSE IF e.o # "" THEN Outc(s, e.o, e.p)
          ELSE IF ~IsInt(r.t) \/ r.c \in {"no", "flt", "addr", "null"} THEN Invalid(s, e.p)
          ELSE IF r.c # "int" THEN Unclear(s, e.p)
          ELSE IF r.v \in s.stk[k].vals THEN Invalid(s, e.p)
          ELSE IF X(e.p) # ":" THEN Invalid(s, e.p)
          ELSE At(PushF([s1 EXCEPT !.stk[k].vals = @ \cup {r.v}], [k |-> "label"]), e.p + 1))
    [] x = "default" ->
         (LET k == SwitchAt(s) IN
          IF k = 0 THEN Invalid(s, i)
          ELSE IF s.stk[k].def THEN Invalid(s, i)
          ELSE IF X(i + 1) # ":" THEN Invalid(s, i + 1)
          ELSE At(PushF([s1 EXCEPT !.stk[k].def = TRUE], [k |-> "label"]), i + 2))
    [] x = "ID" /\ X(i + 1) = ":" ->
         (IF S(i) \in s.labs THEN Invalid(s, i) ELSE At(PushF([s1 EXCEPT !.labs = @ \cup {S(i)}], [k |-> "label"]), i + 2))
    [] x \in {"ID", "NUM", "FLT", "STR", "(", "*", "&", "+", "-", "~", "!", "++", "--", "sizeof"} ->
         (LET e == Expr(s.w, i) IN IF e.o # "" THEN Outc(s, e.o, e.p) ELSE Semi(Notice(s1, i, e.p), e.p))
    [] OTHER -> Invalid(s, i)

\* the end of the unit: every object has a complete type, every used internal function a body
AtEnd(s) ==
  LET g == s.w.ids[1]  ns == DOMAIN g
      \* (for an object: at its declaration, or at the end)
      inc == \E n \in ns : g[n].e = "var" /\ g[n].sc = "global" /\ ~Complete(s.w, IF K(g[n].t) = "arr" /\ g[n].t[4] = -1 THEN [g[n].t EXCEPT ![4] = 1] ELSE g[n].t)
      und == {n \in ns : g[n].e = "fn" /\ g[n].sc = "static" /\ ~g[n].def}
      late == [s EXCEPT !.from = NT + 1, !.p = NT + 1]
  IN IF inc THEN Invalid([late EXCEPT !.from = 1], NT + 1)
     ELSE IF (und \cap s.used) # {} THEN Invalid([late EXCEPT !.from = 1], NT + 1)
     ELSE IF (und \cap s.maybe) # {} THEN Unclear(s, s.p)
     ELSE [s EXCEPT !.ph = "end", !.out = "valid"]
Step(s) ==
  CASE s.ph = "ext" -> IF X(s.p) = "EOF" THEN AtEnd(s)
                       ELSE IF StartsDecl(s.w, s.p) THEN BeginDecl(s, TRUE)
                       ELSE IF X(s.p) \in {"ID", "*", "(", ";"} THEN Unclear(s, s.p)      \* implicit int; empty declarations
                       ELSE Invalid([s EXCEPT !.from = s.p], s.p)
    [] s.ph = "fdecl" -> Declarators(s, TRUE)
    [] s.ph = "bdecl" -> Declarators(s, FALSE)
    [] s.ph = "stmt" -> Stmt(s)

\* does what the compiler did agree with the outcome?
Judge(s) ==
  IF C.crash # "" THEN "crash"
  ELSE IF C.rc # 0 /\ Len(C.errs) = 0 THEN "rejected without a diagnostic"
  ELSE IF C.rc = 0 /\ Len(C.errs) > 0 THEN "diagnosed without a failure status"
  ELSE CASE s.out = "valid" -> IF C.rc # 0 THEN "valid unit rejected" ELSE "agrees"
         [] s.out = "invalid" -> IF C.rc = 0 THEN "invalid unit accepted"
                                 ELSE IF C.errs[1] < s.lo \/ C.errs[1] > s.hi THEN "wrong line" ELSE "agrees"
         [] OTHER -> "agrees"
Init == cid \in 1..Len(Cases) /\ step = 0 /\ m = Start
Next == \/ /\ m.ph # "end" /\ cid' = cid /\ step' = step + 1
           /\ \E r \in {Step(m)} : m' = IF r.ph = "end" THEN [r EXCEPT !.verdict = Judge(r)] ELSE r
           /\ (m'.ph = "end") =>
                IF m'.verdict # "agrees" THEN PrintT(<<"reject", cid, step, m'.verdict, m'.out, m'.lo, m'.hi, m'.p>>) /\ TLCSet("exit", TRUE)
                ELSE PrintT(<<m'.out, cid, step>>)
        \/ m.ph = "end" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<cid, step>>
Conforms == m.verdict \in {"", "agrees"}
\* the scopes nest with the open blocks, and reading goes forward
Sane == /\ m.p >= 1 /\ m.p <= NT + 2
        /\ m.ph = "ext" => (m.stk = <<>> /\ Len(m.w.ids) = 1)
        /\ m.ph = "stmt" => Len(m.w.ids) = 2 + Cardinality({k \in 1..Len(m.stk) : m.stk[k].k = "blk"})
        /\ Len(m.w.ids) = Len(m.w.tags)
Shown == [case |-> cid, name |-> C.name, verdict |-> m.verdict, out |-> m.out, lo |-> m.lo, hi |-> m.hi, p |-> m.p, rc |-> C.rc, errs |-> C.errs]
=============================================================================
