--------------------------------- MODULE Cpp ---------------------------------
(* The C89 preprocessor (with // comments, #warning and the include search  *)
(* of this code base) as a state machine over source characters:            *)
(* trigraphs, line splices, tokens, directives, conditional groups, macro   *)
(* replacement, #if expressions, inclusion and line numbers.                *)
(*                                                                          *)
(* A case is a set of files and options, and what the real preprocessor did *)
(* with them: C.rc (exit status, 0 or 1), C.crash, C.out (characters).  The *)
(* machine produces the expected tokens one by one and matches each against *)
(* the next token of the output, with the position the output claims.       *)
EXTENDS Word32, SequencesExt, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, m, step
vars == <<cid, m, step>>
C == Cases[cid]

------------------------------- (* characters *) -----------------------------
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
AlNum == Letters \cup Digits
NumSet == AlNum \cup {"."}
DigitVal == ("0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9 @@
             "a" :> 10 @@ "b" :> 11 @@ "c" :> 12 @@ "d" :> 13 @@ "e" :> 14 @@ "f" :> 15 @@
             "A" :> 10 @@ "B" :> 11 @@ "C" :> 12 @@ "D" :> 13 @@ "E" :> 14 @@ "F" :> 15)
NL == "\n"
White == {" ", "\t", "\f"}
IsWhite(x) == x \in White \/ x = C.vt
Ops3 == {"...", "<<=", ">>="}
Ops2 == {"->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##"}
Ops1 == {"[", "]", "(", ")", ".", "&", "*", "+", "-", "~", "!", "/", "%", "<", ">", "^", "|", "?", ":", "=", ",", "#", ";", "{", "}"}
Nums(n) == [i \in 1..n |-> i]
Front1(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == s[Len(s)]

\* trigraphs and line splices: the characters that remain and their physical lines
Tri == ("=" :> "#" @@ "(" :> "[" @@ "/" :> "\\" @@ ")" :> "]" @@ "'" :> "^" @@ "<" :> "{" @@ "!" :> "|" @@ ">" :> "}" @@ "-" :> "~")
TriAt(c, i) == i > 0 /\ i + 2 <= Len(c) /\ c[i] = "?" /\ c[i + 1] = "?" /\ c[i + 2] \in DOMAIN Tri
Phase12(c) ==
  LET keep == SelectSeq(Nums(Len(c)), LAMBDA i : ~TriAt(c, i - 1) /\ ~TriAt(c, i - 2))
      d == [k \in 1..Len(keep) |-> IF TriAt(c, keep[k]) THEN Tri[c[keep[k] + 2]] ELSE c[keep[k]]]
      Splice(k) == k > 0 /\ k < Len(d) /\ d[k] = "\\" /\ d[k + 1] = NL
      keep2 == SelectSeq(Nums(Len(d)), LAMBDA k : ~Splice(k) /\ ~Splice(k - 1))
      \* physical line of every character
      ln == FoldLeft(LAMBDA a, x : [n |-> IF x = NL THEN a.n + 1 ELSE a.n, s |-> Append(a.s, a.n)], [n |-> 1, s |-> <<>>], d)
  IN [c |-> [k \in 1..Len(keep2) |-> d[keep2[k]]], l |-> [k \in 1..Len(keep2) |-> ln.s[keep2[k]]] \o <<ln.n>>]

--------------------------------- (* tokens *) -------------------------------
\* first position >= p whose character satisfies P (Len(c) + 1 if none)
Find(c, p, P(_)) ==
  LET w(lo, hi) == {i \in lo..(IF hi < Len(c) THEN hi ELSE Len(c)) : P(i)}
      a == w(p, p + 15)  b == w(p + 16, p + 127)  d == w(p + 128, p + 1023)  e == w(p + 1024, Len(c))
  IN IF a # {} THEN Min(a) ELSE IF b # {} THEN Min(b) ELSE IF d # {} THEN Min(d) ELSE IF e # {} THEN Min(e) ELSE Len(c) + 1
RECURSIVE Cat(_, _, _)
Cat(c, i, j) ==
  IF j < i THEN "" ELSE IF i = j THEN c[i]
  ELSE LET h == (i + j) \div 2 IN Cat(c, i, h) \o Cat(c, h + 1, j)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
At(c, p) == IF p <= Len(c) THEN c[p] ELSE ""

RECURSIVE LitEnd(_, _, _)
\* the position after the closing quote, or 0
LitEnd(c, p, q) ==
  LET j == Find(c, p, LAMBDA i : c[i] \in {q, "\\", NL}) IN
  IF j > Len(c) \/ c[j] = NL THEN 0
  ELSE IF c[j] = "\\" THEN (IF At(c, j + 1) \in {"", NL} THEN 0 ELSE LitEnd(c, j + 2, q))
  ELSE j + 1
RECURSIVE SkipWhite(_, _)
\* the position after white space and comments; 0: an unclosed comment
SkipWhite(c, p) ==
  LET j == Find(c, p, LAMBDA i : ~IsWhite(c[i])) IN
  IF At(c, j) = "/" /\ At(c, j + 1) = "*"
  THEN LET k == Find(c, j + 2, LAMBDA i : c[i] = "*" /\ At(c, i + 1) = "/") IN IF k > Len(c) THEN 0 ELSE SkipWhite(c, k + 2)
  ELSE IF At(c, j) = "/" /\ At(c, j + 1) = "/" THEN Find(c, j + 2, LAMBDA i : c[i] = NL)
  ELSE j
\* the token at p: kind, spelling, preceded by white space, first position, next position
LexTok(c, p0) ==
  LET p == SkipWhite(c, p0)
      x == At(c, p)
      Tok(k, e) == [k |-> k, s |-> Cat(c, p, e - 1), w |-> p # p0, p |-> p, n |-> e]
      Lit(k, q) == LET e == LitEnd(c, q + 1, c[q]) IN IF e = 0 THEN [k |-> "bad", s |-> "", w |-> FALSE, p |-> p, n |-> p] ELSE Tok(k, e)
  IN CASE p = 0 -> [k |-> "bad", s |-> "", w |-> FALSE, p |-> p0, n |-> p0]
       [] x = "" -> [k |-> "eof", s |-> "", w |-> FALSE, p |-> p, n |-> p]
       [] x = NL -> Tok("nl", p + 1)
       [] x = "L" /\ At(c, p + 1) = "\"" -> Lit("str", p + 1)
       [] x = "L" /\ At(c, p + 1) = "'" -> Lit("chr", p + 1)
       [] x \in Letters /\ ~(x = "L" /\ At(c, p + 1) \in {"\"", "'"}) -> Tok("id", Find(c, p + 1, LAMBDA i : c[i] \notin AlNum))
       [] x \in Digits \/ (x = "." /\ At(c, p + 1) \in Digits) ->
            Tok("num", Find(c, p + 1, LAMBDA i : ~(c[i] \in NumSet \/ (c[i] \in {"+", "-"} /\ c[i - 1] \in {"e", "E"}))))
       [] x = "\"" -> Lit("str", p)
       [] x = "'" -> Lit("chr", p)
       [] OTHER -> IF p + 2 <= Len(c) /\ Cat(c, p, p + 2) \in Ops3 THEN Tok("op", p + 3)
                   ELSE IF p + 1 <= Len(c) /\ Cat(c, p, p + 1) \in Ops2 THEN Tok("op", p + 2)
                   ELSE IF x \in Ops1 THEN Tok("op", p + 1) ELSE Tok("oth", p + 1)
\* a token with hide set and line
T(k, s, w, l) == [k |-> k, s |-> s, w |-> w, h |-> {}, l |-> l]
RECURSIVE LexAll(_, _, _)
LexAll(c, p, l) ==
  LET t == LexTok(c, p) IN IF t.k \in {"eof", "nl", "bad"} THEN <<>> ELSE <<T(t.k, t.s, t.w, l)>> \o LexAll(c, t.n, l)
Is(t, s) == t.k \in {"op", "id"} /\ t.s = s

\* path names as sequences of components
RECURSIVE Split(_, _)
Split(c, p) ==
  IF p > Len(c) THEN <<>>
  ELSE LET e == Find(c, p, LAMBDA i : c[i] = "/")  w == Cat(c, p, e - 1)
       IN (IF w \in {"", "."} THEN <<>> ELSE <<w>>) \o Split(c, e + 1)
Path(s) == Split(Chars(s), 1)
Inner(s) == SubSeq(s, 2, Len(s) - 1)
IsAbs(s) == Len(s) > 0 /\ SubSeq(s, 1, 1) = "/"

------------------------------ (* #if expressions *) -------------------------
\* values: k: "val", "ind" (not specified), "div" (division by zero), "err" (syntax); u: unsigned; v: value;
\* an unsigned value v < 0 stands for 2^N + v, whatever the width N >= 32 of the widest type
Val(u, v) == [k |-> "val", u |-> u, v |-> v]
Ind == [k |-> "ind", u |-> FALSE, v |-> 0]
DivZ == [k |-> "div", u |-> FALSE, v |-> 0]
Err == [k |-> "err", u |-> FALSE, v |-> 0]
B(b) == Val(FALSE, IF b THEN 1 ELSE 0)
Over(op, x, y, r) ==
  CASE op = "+" -> (x >= 0) = (y >= 0) /\ (r >= 0) # (x >= 0)
    [] op = "-" -> (x >= 0) # (y >= 0) /\ (r >= 0) # (x >= 0)
    [] op = "*" -> x # 0 /\ (DivS(r, x) # y \/ (x = -1 /\ y = MinInt))
Prec == ("*" :> 10 @@ "/" :> 10 @@ "%" :> 10 @@ "+" :> 9 @@ "-" :> 9 @@ "<<" :> 8 @@ ">>" :> 8 @@ "<" :> 7 @@ ">" :> 7 @@ "<=" :> 7 @@ ">=" :> 7 @@
         "==" :> 6 @@ "!=" :> 6 @@ "&" :> 5 @@ "^" :> 4 @@ "|" :> 3 @@ "&&" :> 2 @@ "||" :> 1)
Apply(op, a, b) ==
  LET u == a.u \/ b.u
      lt == IF u /\ (a.v < 0) # (b.v < 0) THEN b.v < 0 ELSE a.v < b.v
      r == CASE op = "+" -> Add(a.v, b.v) [] op = "-" -> Sub(a.v, b.v) [] op = "*" -> Mul(a.v, b.v) [] OTHER -> 0
  IN CASE a.k = "err" \/ b.k = "err" -> Err
       [] op = "&&" -> IF a.k # "val" THEN a ELSE IF a.v = 0 THEN B(FALSE) ELSE IF b.k # "val" THEN b ELSE B(b.v # 0)
       [] op = "||" -> IF a.k # "val" THEN a ELSE IF a.v # 0 THEN B(TRUE) ELSE IF b.k # "val" THEN b ELSE B(b.v # 0)
       [] op \notin {"&&", "||"} /\ (a.k = "div" \/ b.k = "div") -> DivZ
       [] op \in {"/", "%"} /\ a.k # "err" /\ a.k # "div" /\ b.k = "val" /\ b.v = 0 -> DivZ
       [] op \notin {"&&", "||"} /\ (a.k = "ind" \/ b.k = "ind") /\ a.k \notin {"err", "div"} /\ b.k \notin {"err", "div"} /\ ~(op \in {"/", "%"} /\ b.k = "val" /\ b.v = 0) -> Ind
       [] OTHER ->
          CASE op \in {"+", "-", "*"} -> IF Over(op, a.v, b.v, r) THEN Ind ELSE Val(u, r)
            [] op = "/" -> IF u THEN (IF a.v >= 0 THEN Val(u, IF b.v < 0 THEN 0 ELSE DivS(a.v, b.v)) ELSE Ind)
                           ELSE IF a.v = MinInt /\ b.v = -1 THEN Ind ELSE Val(u, DivS(a.v, b.v))
            [] op = "%" -> IF u THEN (IF a.v >= 0 THEN Val(u, IF b.v < 0 THEN a.v ELSE ModS(a.v, b.v)) ELSE Ind)
                           ELSE IF a.v = MinInt /\ b.v = -1 THEN Ind ELSE Val(u, ModS(a.v, b.v))
            [] op = "<<" -> IF b.v < 0 \/ b.v > 31 \/ (a.v < 0 /\ ~a.u) THEN Ind
                            ELSE LET s == Shl(a.v, b.v) IN IF ShrS(s, b.v) # a.v THEN Ind ELSE Val(a.u, s)
            [] op = ">>" -> IF b.v < 0 \/ b.v > 31 \/ a.v < 0 THEN Ind ELSE Val(a.u, ShrS(a.v, b.v))
            [] op = "<" -> B(lt)
            [] op = ">" -> B(~lt /\ a.v # b.v)
            [] op = "<=" -> B(lt \/ a.v = b.v)
            [] op = ">=" -> B(~lt)
            [] op = "==" -> B(a.v = b.v)
            [] op = "!=" -> B(a.v # b.v)
            [] op = "&" -> Val(u, BAnd(a.v, b.v))
            [] op = "^" -> Val(u, BXor(a.v, b.v))
            [] op = "|" -> Val(u, BOr(a.v, b.v))
Unary(op, a) ==
  IF a.k # "val" THEN a
  ELSE CASE op = "-" -> IF a.v = MinInt THEN Ind ELSE Val(a.u, -a.v)
         [] op = "+" -> a
         [] op = "~" -> Val(a.u, BNot(a.v))
         [] op = "!" -> B(a.v = 0)
\* c ? a : b
Choice(c, a, b) ==
  IF c.k = "err" \/ a.k = "err" \/ b.k = "err" THEN Err
  ELSE IF c.k # "val" THEN c
  ELSE LET r == IF c.v # 0 THEN a ELSE b IN IF r.k # "val" THEN r ELSE IF a.u \/ b.u THEN Val(TRUE, r.v) ELSE r
\* integer constants
NumSuffixes == {"", "u", "U", "l", "L", "ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU"}
NumValue(s) ==
  LET c == Chars(s)
      hex == Len(c) >= 3 /\ c[1] = "0" /\ c[2] \in {"x", "X"}
      base == IF hex THEN 16 ELSE IF c[1] = "0" THEN 8 ELSE 10
      from == IF hex THEN 3 ELSE 1
      e == Find(c, from, LAMBDA i : ~(c[i] \in DOMAIN DigitVal /\ (base = 16 \/ c[i] \in Digits)))
      sfx == Cat(c, e, Len(c))
      ds == SubSeq(c, from, e - 1)
      v == FoldLeft(LAMBDA a, x : IF a < 0 \/ a > (MaxInt - DigitVal[x]) \div base THEN -1 ELSE a * base + DigitVal[x], 0, ds)
  IN IF sfx \notin NumSuffixes \/ ds = <<>> THEN Err
     ELSE IF base = 8 /\ \E i \in 1..Len(ds) : ds[i] \in {"8", "9"} THEN Ind
     ELSE IF v < 0 THEN Ind
     ELSE Val(\E i \in e..Len(c) : c[i] \in {"u", "U"}, v)
Escapes == ("n" :> 10 @@ "t" :> 9 @@ "v" :> 11 @@ "b" :> 8 @@ "r" :> 13 @@ "f" :> 12 @@ "a" :> 7 @@ "\\" :> 92 @@ "?" :> 63 @@ "'" :> 39 @@ "\"" :> 34)
Ascii == [i \in 32..126 |-> C.ascii[i - 31]]
Code(x) == LET h == {i \in 32..126 : Ascii[i] = x} IN IF h = {} THEN -1 ELSE CHOOSE i \in h : TRUE
ChrValue(s) ==
  LET c == Chars(s)
      n == Len(c)
      oct == \A i \in 3..n - 1 : c[i] \in Digits \ {"8", "9"}
      hex == \A i \in 4..n - 1 : c[i] \in DOMAIN DigitVal
      num(i, b) == FoldLeft(LAMBDA a, x : IF a > 1000 THEN a ELSE a * b + DigitVal[x], 0, SubSeq(c, i, n - 1))
      small(v) == IF v > 127 THEN Ind ELSE Val(FALSE, v)
  IN IF c[1] # "'" THEN Ind
     ELSE IF n = 2 THEN Err
     ELSE IF n = 3 THEN (IF Code(c[2]) >= 0 THEN Val(FALSE, Code(c[2])) ELSE Ind)
     ELSE IF c[2] # "\\" THEN Ind
     ELSE IF n <= 6 /\ oct THEN small(num(3, 8))
     ELSE IF c[3] = "x" /\ n > 4 /\ hex THEN small(num(4, 16))
     ELSE IF n = 4 /\ c[3] \in DOMAIN Escapes THEN Val(FALSE, Escapes[c[3]]) ELSE Ind

\* recursive descent over the tokens ts; results [v |-> value, n |-> next token]
TokAt(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE [k |-> "end", s |-> "", h |-> {}]
R(v, n) == [v |-> v, n |-> n]
RECURSIVE Ter(_, _), Bin(_, _, _), Loop(_, _, _, _), Un(_, _)
Un(ts, i) ==
  LET t == TokAt(ts, i) IN
  CASE t.k = "op" /\ t.s \in {"+", "-", "~", "!"} -> (LET r == Un(ts, i + 1) IN R(Unary(t.s, r.v), r.n))
    [] t.k = "op" /\ t.s = "(" -> (LET r == Ter(ts, i + 1) IN IF Is(TokAt(ts, r.n), ")") THEN R(r.v, r.n + 1) ELSE R(Err, i))
    [] t.k = "num" -> R(NumValue(t.s), i + 1)
    [] t.k = "anynum" -> R(Ind, i + 1)
    [] t.k = "chr" -> R(ChrValue(t.s), i + 1)
    [] t.k = "def" -> R(B(t.s = "1"), i + 1)
    [] t.k = "id" -> R(Val(FALSE, 0), i + 1)
    [] OTHER -> R(Err, i)
Loop(ts, l, i, min) ==
  LET t == TokAt(ts, i) IN
  IF l.k # "err" /\ t.k = "op" /\ t.s \in DOMAIN Prec /\ Prec[t.s] >= min
  THEN LET r == Bin(ts, i + 1, Prec[t.s] + 1) IN Loop(ts, Apply(t.s, l, r.v), r.n, min)
  ELSE R(l, i)
Bin(ts, i, min) == LET l == Un(ts, i) IN Loop(ts, l.v, l.n, min)
Ter(ts, i) ==
  LET c == Bin(ts, i, 1) IN
  IF c.v.k = "err" \/ ~Is(TokAt(ts, c.n), "?") THEN c
  ELSE LET a == Ter(ts, c.n + 1) IN
       IF ~Is(TokAt(ts, a.n), ":") THEN R(Err, i)
       ELSE LET b == Ter(ts, a.n + 1) IN R(Choice(c.v, a.v, b.v), b.n)
IfValue(ts) == LET r == Ter(ts, 1) IN IF r.n # Len(ts) + 1 THEN Err ELSE r.v

-------------------------------- (* macros *) --------------------------------
Builtins == {"__LINE__", "__FILE__", "__DATE__", "__TIME__"}
NoCall == [on |-> FALSE]
Frame(ts) == [in |-> ts, acc |-> <<>>, call |-> NoCall]
Wilds == {"anystr", "anynum", "file"}
\* "..." of an argument
Quote(ts) ==
  LET esc(t) == IF t.k \in {"str", "chr"} THEN FoldLeft(LAMBDA a, x : a \o (IF x \in {"\"", "\\"} THEN "\\" \o x ELSE x), "", Chars(t.s)) ELSE t.s
  IN "\"" \o FoldLeft(LAMBDA a, i : a \o (IF i > 1 /\ ts[i].w THEN " " ELSE "") \o esc(ts[i]), "", Nums(Len(ts))) \o "\""
Stringize(ts, w, l) ==
  IF \E i \in 1..Len(ts) : ts[i].k \in Wilds THEN T("anystr", "", w, l) ELSE T("str", Quote(ts), w, l)
\* a pasted token, or kind "bad"
Paste(a, b) ==
  LET s == a.s \o b.s  t == LexTok(Chars(s), 1) IN
  IF a.k \in Wilds \cup {"bad"} \/ b.k \in Wilds \/ t.k \in {"bad", "eof", "nl"} \/ t.n # Len(s) + 1 \/ t.w \/ t.k = "oth" THEN T("bad", "", a.w, a.l) ELSE T(t.k, t.s, a.w, a.l)
ParamNo(mc, t) == IF t.k # "id" THEN 0 ELSE LET h == {i \in 1..Len(mc.ps) : mc.ps[i] = t.s} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
NextToPaste(b, i) == (i > 1 /\ Is(b[i - 1], "##")) \/ (i < Len(b) /\ Is(b[i + 1], "##"))
StringPos(mc, i) == mc.fn /\ Is(mc.body[i], "#") /\ i < Len(mc.body) /\ ParamNo(mc, mc.body[i + 1]) > 0
\* parameters that are replaced by their expanded argument
Plain(mc) == {ParamNo(mc, mc.body[i]) : i \in {i \in 1..Len(mc.body) : ~NextToPaste(mc.body, i) /\ ~(i > 1 /\ StringPos(mc, i - 1))}} \ {0}
WithW(ts, w) == IF ts = <<>> THEN ts ELSE <<[ts[1] EXCEPT !.w = w]>> \o SubSeq(ts, 2, Len(ts))
\* the replacement list with arguments raw, exp; l: line; hs: hide set of every token
Subst(mc, raw, exp, hs, w, l) ==
  LET b == mc.body
      items(i) ==
        IF StringPos(mc, i) THEN <<Stringize(raw[ParamNo(mc, b[i + 1])], b[i].w, l)>>
        ELSE IF i > 1 /\ StringPos(mc, i - 1) THEN <<>>
        ELSE LET n == ParamNo(mc, b[i]) IN
             IF n = 0 THEN <<[b[i] EXCEPT !.l = l]>>
             ELSE WithW(IF NextToPaste(b, i) THEN raw[n] ELSE exp[n], b[i].w)
      add(a, i) ==
        IF Is(b[i], "##") THEN [o |-> a.o, paste |-> TRUE]
        ELSE LET x == items(i) IN
             IF i > 1 /\ StringPos(mc, i - 1) THEN a
             ELSE IF a.paste /\ a.o # <<>> /\ x # <<>> THEN [o |-> Front1(a.o) \o <<Paste(Top(a.o), x[1])>> \o SubSeq(x, 2, Len(x)), paste |-> FALSE]
             ELSE [o |-> a.o \o x, paste |-> FALSE]
      r == FoldLeft(add, [o |-> <<>>, paste |-> FALSE], Nums(Len(b))).o
  IN WithW([i \in 1..Len(r) |-> [r[i] EXCEPT !.h = @ \cup hs]], w)
\* split the tokens after "(" into arguments: [st |-> "more" / "ok", args, rest]
Gather(ts) ==
  LET f(a, i) ==
        IF a.done > 0 THEN a
        ELSE IF Is(ts[i], "(") THEN [a EXCEPT !.d = @ + 1, !.cur = Append(@, ts[i])]
        ELSE IF Is(ts[i], ")") THEN (IF a.d = 0 THEN [a EXCEPT !.done = i, !.args = Append(@, a.cur)] ELSE [a EXCEPT !.d = @ - 1, !.cur = Append(@, ts[i])])
        ELSE IF Is(ts[i], ",") /\ a.d = 0 THEN [a EXCEPT !.args = Append(@, a.cur), !.cur = <<>>]
        ELSE [a EXCEPT !.cur = Append(@, ts[i])]
      r == FoldLeft(f, [d |-> 0, cur |-> <<>>, args |-> <<>>, done |-> 0], Nums(Len(ts)))
  IN r

----------------------------- (* the observed output *) ----------------------
RECURSIVE Obs(_)
\* the next token of the output at o = [p, line, file, bol]
Obs(o) ==
  LET t == LexTok(C.out, o.p) IN
  CASE t.k = "nl" -> Obs([o EXCEPT !.p = t.n, !.line = @ + 1, !.bol = TRUE])
    [] t.k = "op" /\ t.s = "#" /\ o.bol ->
       (LET a == LexTok(C.out, t.n)
            b == IF a.k = "id" /\ a.s = "line" THEN LexTok(C.out, a.n) ELSE a
            f == LexTok(C.out, b.n)
        IN IF b.k # "num" \/ NumValue(b.s).k # "val" THEN [t |-> t, o |-> [o EXCEPT !.p = t.n, !.bol = FALSE]]
           ELSE IF f.k = "str" /\ LexTok(C.out, f.n).k = "nl" THEN Obs([p |-> LexTok(C.out, f.n).n, line |-> NumValue(b.s).v, file |-> Path(Inner(f.s)), bol |-> TRUE])
           ELSE IF f.k = "nl" THEN Obs([o EXCEPT !.p = f.n, !.line = NumValue(b.s).v, !.bol = TRUE])
           ELSE [t |-> t, o |-> [o EXCEPT !.p = t.n, !.bol = FALSE]])
    [] OTHER -> [t |-> t, o |-> [o EXCEPT !.p = t.n, !.bol = FALSE]]

-------------------------------- (* machine *) -------------------------------
Src == Top(m.src)
End(r, why) == [r EXCEPT !.out = why]
Wrong(r) == End(r, IF C.rc # 0 THEN "agrees" ELSE "an error is not reported")
Free(r) == End(r, "free")
Live(r) == r.conds = <<>> \/ Top(r.conds).on
\* a line is longer than the preprocessor has to take: it says so and gives up
LongLine(r) == \E f \in 1..Len(r.tx) :
  FoldLeft(LAMBDA a, x : IF x = NL THEN [n |-> 0, max |-> a.max] ELSE [n |-> a.n + 1, max |-> IF a.n + 1 > a.max THEN a.n + 1 ELSE a.max], [n |-> 0, max |-> 0], r.tx[f].c).max > 4000
Says(s) == \E i \in 1..(Len(C.err) - Len(s) + 1) : SubSeq(C.err, i, i + Len(s) - 1) = s
\* the same for a token made by # of more than its 500 characters
LongString(t) == t.k = "str" /\ C.rc # 0 /\ Len(t.s) > 250 /\ Says("Stringified macro arg is too long")
\* one expected token appears in the output
SameSpelling(r, t, x) ==
  CASE t.k = "anystr" -> x.k = "str"
    [] t.k = "anynum" -> x.k = "num"
    [] t.k = "file" -> x.k = "str" /\ Path(Inner(x.s)) = Top(r.src).name
    [] OTHER -> x.k = t.k /\ x.s = t.s
Emit(r, t) ==
  IF t.k = "bad" \/ LongString(t) THEN Free(r)
  ELSE LET q == Obs(r.oc) IN
    IF q.t.k = "eof" /\ C.rc # 0 THEN r   \* given up at an error to come
    ELSE IF ~SameSpelling(r, t, q.t) /\ C.rc # 0 /\ q.t.n = Len(C.out) + 1 THEN [r EXCEPT !.oc = q.o]   \* the same within a token
    ELSE IF ~SameSpelling(r, t, q.t) THEN [End(r, "wrong token") EXCEPT !.why = <<"expected", t, "found", q.t>>]
    ELSE IF q.o.file # Top(r.src).name THEN [End(r, "wrong file") EXCEPT !.why = <<"expected", t, Top(r.src).name, "found", q.o>>]
    ELSE IF q.o.line < r.rl \/ q.o.line > t.l THEN [End(r, "wrong line") EXCEPT !.why = <<"expected", t, "from", r.rl, "found", q.o.line>>]
    ELSE [r EXCEPT !.oc = q.o]

DirOf(p) == Front1(p)
\* directories of -I start from the directory of the main file
Start ==
  [ph |-> "opt", tx |-> [i \in 1..Len(C.files) |-> Phase12(C.files[i].ch)], oi |-> 1,
   src |-> <<[f |-> 1, p |-> 1, off |-> 0, name |-> Path(C.files[1].name), conds |-> 0]>>,
   conds |-> <<>>, mac |-> [x \in {} |-> 0], dirs |-> [i \in 1..Len(C.dirs) |-> DirOf(Path(C.files[1].name)) \o Path(C.dirs[i])],
   row |-> <<>>, rl |-> 1, multi |-> FALSE, fresh |-> TRUE, fr |-> <<>>, mode |-> "", block |-> "", pend |-> <<>>, amb |-> FALSE,
   oc |-> [p |-> 1, line |-> 1, file |-> <<>>, bol |-> TRUE], out |-> "", why |-> <<>>]

\* definitions -------------------------------------------------------------
SameMacro(a, b) ==
  a.fn = b.fn /\ a.ps = b.ps /\ Len(a.body) = Len(b.body)
  /\ \A i \in 1..Len(a.body) : a.body[i].k = b.body[i].k /\ a.body[i].s = b.body[i].s /\ a.body[i].w = b.body[i].w
SetMac(r, n, d) == [r EXCEPT !.mac = (n :> d) @@ @]
UnMac(r, n) == [r EXCEPT !.mac = [x \in DOMAIN @ \ {n} |-> @[x]]]
\* the tokens of a row after #define
Define(r, ts) ==
  IF ts = <<>> \/ ts[1].k # "id" THEN Wrong(r)
  ELSE IF ts[1].s \in Builtins \cup {"defined", "__STDC__"} THEN Wrong(r)
  ELSE
  LET fn == Len(ts) >= 2 /\ Is(ts[2], "(") /\ ~ts[2].w
      cl == {i \in 3..Len(ts) : Is(ts[i], ")")}
      e == IF cl = {} THEN 0 ELSE Min(cl)
      okps == \/ e = 3
              \/ e > 3 /\ (e - 3) % 2 = 1 /\ \A i \in 3..e - 1 : IF i % 2 = 1 THEN ts[i].k = "id" ELSE Is(ts[i], ",")
      ps == IF fn /\ okps THEN [i \in 1..((e - 2) \div 2) |-> ts[2 * i + 1].s] ELSE <<>>
      b0 == SubSeq(ts, IF fn THEN e + 1 ELSE 2, Len(ts))
      body == WithW([i \in 1..Len(b0) |-> [b0[i] EXCEPT !.l = 0]], FALSE)
      d == [fn |-> fn, ps |-> ps, body |-> body]
      hashes == fn /\ \E i \in 1..Len(body) : Is(body[i], "#") /\ ~StringPos(d, i)
  IN IF fn /\ (e = 0 \/ ~okps) THEN Wrong(r)
     ELSE IF Cardinality({ps[i] : i \in 1..Len(ps)}) # Len(ps) THEN Wrong(r)
     ELSE IF Len(ps) > 31 THEN Free(r)
     ELSE IF ts[1].s \in DOMAIN r.mac /\ ~SameMacro(r.mac[ts[1].s], d) THEN Wrong(r)
     ELSE IF hashes \/ (body # <<>> /\ (Is(body[1], "##") \/ Is(Top(body), "##"))) THEN Free(r)
     ELSE SetMac(r, ts[1].s, d)
\* -D and -U
Option(r) ==
  LET o == C.opts[r.oi]
      ts == LexAll(Chars(o.s), 1, 0)
      r2 == [r EXCEPT !.oi = @ + 1]
  IN IF o.k = "U" THEN (IF Len(ts) # 1 \/ ts[1].k # "id" THEN Wrong(r) ELSE UnMac(r2, ts[1].s))
     ELSE IF ts = <<>> \/ ts[1].k # "id" \/ (Len(ts) > 1 /\ ~Is(ts[2], "=")) THEN Wrong(r)
     ELSE SetMac(r2, ts[1].s, [fn |-> FALSE, ps |-> <<>>, body |-> IF Len(ts) = 1 THEN <<T("num", "1", FALSE, 0)>> ELSE WithW(SubSeq(ts, 3, Len(ts)), FALSE)])

\* reading rows ------------------------------------------------------------
TX(r) == r.tx[Top(r.src).f]
\* the physical line on which the row at p begins
RowLine(x, p) == IF p = 1 THEN 1 ELSE x.l[p - 1] + 1
\* the end of a file
EndOfFile(r) ==
  IF Len(r.conds) # Top(r.src).conds THEN Wrong(r)
  ELSE IF Len(r.src) > 1 THEN [r EXCEPT !.src = Front1(@), !.fresh = TRUE]
  ELSE IF C.rc # 0 /\ Says("Input buffer overflow") /\ LongLine(r) THEN Free(r)
  ELSE IF C.rc # 0 THEN [End(r, "refused") EXCEPT !.why = C.err]
  ELSE IF Obs(r.oc).t.k # "eof" THEN [End(r, "too much output") EXCEPT !.why = Obs(r.oc)]
  ELSE End(r, "agrees")
\* one more token of the current row; more: the row continues the text being expanded
Lex(r, more) ==
  LET x == TX(r)
      s == Top(r.src)
      t == LexTok(x.c, s.p)
      line == RowLine(x, s.p) + s.off
      tl == x.l[t.p] + s.off
      r1 == IF r.fresh THEN [r EXCEPT !.fresh = FALSE, !.row = <<>>, !.rl = IF more THEN @ ELSE line, !.multi = more] ELSE r
      r2 == [r1 EXCEPT !.src[Len(r.src)].p = t.n, !.multi = @ \/ tl # r1.rl]
  IN IF t.k = "bad" THEN Free(r)
     ELSE IF t.k = "eof" /\ r2.row = <<>>
     THEN (IF more THEN [r2 EXCEPT !.ph = "exp", !.block = "eof", !.fresh = TRUE] ELSE EndOfFile(r2))
     ELSE IF t.k \in {"nl", "eof"} THEN [r2 EXCEPT !.ph = IF more THEN "morerow" ELSE "row", !.fresh = TRUE]
     ELSE [r2 EXCEPT !.row = Append(@, T(t.k, t.s, t.w, tl))]
\* more text for a macro call that is not complete
MoreRow(r) ==
  IF r.row = <<>> THEN [r EXCEPT !.ph = "more"]
  ELSE IF Is(r.row[1], "#") THEN [r EXCEPT !.ph = "exp", !.block = "dir", !.pend = r.row]
  ELSE [r EXCEPT !.ph = "exp", !.fr[1].in = @ \o WithW(r.row, TRUE), !.multi = TRUE]
Expand(r, ts, mode) == [r EXCEPT !.ph = "exp", !.fr = <<Frame(ts)>>, !.mode = mode]
NextRow(r) ==
  IF r.pend # <<>> THEN [r EXCEPT !.ph = "row", !.row = r.pend, !.pend = <<>>, !.block = "", !.fr = <<>>, !.amb = TRUE, !.rl = r.pend[1].l]
  ELSE [r EXCEPT !.ph = "lex", !.fr = <<>>, !.amb = r.block # "", !.block = ""]

\* conditional groups ------------------------------------------------------
Push(r, on) == [r EXCEPT !.conds = Append(@, [on |-> on, taken |-> on \/ ~Live(r), els |-> FALSE, up |-> Live(r)])]
SetCond(r, on) == [r EXCEPT !.conds[Len(r.conds)].on = on, !.conds[Len(r.conds)].taken = @ \/ on]
InFile(r) == Len(r.conds) > Top(r.src).conds
\* identifiers after "defined" are looked up before macros are replaced: [ts, ok]
Defined(mac, ts) ==
  LET isd(t) == T("def", IF t.s \in DOMAIN mac \/ t.s \in Builtins THEN "1" ELSE "0", t.w, t.l)
      f(a, i) ==
        IF a.skip > 0 THEN [a EXCEPT !.skip = @ - 1]
        ELSE IF ~Is(ts[i], "defined") THEN [a EXCEPT !.ts = Append(@, ts[i])]
        ELSE IF TokAt(ts, i + 1).k = "id" THEN [a EXCEPT !.ts = Append(@, isd(ts[i + 1])), !.skip = 1]
        ELSE IF Is(TokAt(ts, i + 1), "(") /\ TokAt(ts, i + 2).k = "id" /\ Is(TokAt(ts, i + 3), ")")
             THEN [a EXCEPT !.ts = Append(@, isd(ts[i + 2])), !.skip = 3]
        ELSE [a EXCEPT !.ok = FALSE]
  IN FoldLeft(f, [ts |-> <<>>, ok |-> TRUE, skip |-> 0], Nums(Len(ts)))
StartIf(r, ts, mode) ==
  LET d == Defined(r.mac, ts) IN
  IF ~d.ok THEN Wrong(r) ELSE IF d.ts = <<>> THEN Wrong(r) ELSE Expand(r, d.ts, mode)
\* the condition has been expanded
DoIf(r, ts, mode) ==
  IF \E i \in 1..Len(ts) : ts[i].k \in {"bad", "anystr", "file"} \/ Is(ts[i], "defined") THEN Free(r)
  ELSE LET v == IfValue(ts) IN
       IF v.k \in {"err", "div"} THEN Wrong(r)
       ELSE IF v.k = "ind" THEN Free(r)
       ELSE NextRow(IF mode = "if" THEN Push(r, v.v # 0) ELSE SetCond(r, v.v # 0))

\* inclusion ---------------------------------------------------------------
Known(r, d) == \E i \in 1..Len(r.dirs) : r.dirs[i] = d
\* files looked at, in order: the directory of the main file (for "..."), -I directories and the directories of names included before
Include(r, name, angled) ==
  LET p == Path(name)
      base == DirOf(Path(C.files[1].name))
      nd == base \o (IF p = <<>> THEN <<>> ELSE DirOf(p))
      dirs == IF Known(r, nd) THEN r.dirs ELSE Append(r.dirs, nd)
      cand == (IF angled THEN <<>> ELSE <<base \o p>>) \o [i \in 1..Len(dirs) |-> dirs[i] \o p]
      hit(q) == {i \in 1..Len(C.files) : Path(C.files[i].name) = q}
      found == {k \in 1..Len(cand) : hit(cand[k]) # {}}
  IN IF p = <<>> \/ IsAbs(name) \/ ".." \in Range(p) THEN Free(r)
     ELSE IF Len(dirs) > 30 \/ Len(r.src) > 8 THEN Free(r)
     ELSE IF found = {} THEN Wrong(r)
     ELSE LET q == cand[Min(found)]  f == CHOOSE i \in hit(q) : TRUE IN
          [NextRow(r) EXCEPT !.dirs = dirs, !.src = Append(@, [f |-> f, p |-> 1, off |-> 0, name |-> q, conds |-> Len(r.conds)])]
DoInclude(r, ts) ==
  LET e == {i \in 2..Len(ts) : Is(ts[i], ">")} IN
  IF ts = <<>> THEN Wrong(r)
  ELSE IF \E i \in 1..Len(ts) : ts[i].k \in Wilds \cup {"bad"} THEN Free(r)
  ELSE IF ts[1].k = "str" THEN (IF Len(ts) # 1 \/ SubSeq(ts[1].s, 1, 1) # "\"" THEN Wrong(r) ELSE IF Len(ts[1].s) > 250 THEN Free(r) ELSE Include(r, Inner(ts[1].s), FALSE))
  ELSE IF Is(ts[1], "<") THEN
       (IF e = {} \/ Min(e) # Len(ts) \/ Len(ts) = 2 THEN Wrong(r)
        ELSE IF \E i \in 2..Len(ts) : ts[i].w THEN Free(r)
        ELSE Include(r, FoldLeft(LAMBDA a, t : a \o t.s, "", SubSeq(ts, 2, Len(ts) - 1)), TRUE))
  ELSE Wrong(r)
\* #line
DoLine(r, ts) ==
  LET s == Top(r.src)
      bad == ts = <<>> \/ Len(ts) > 2 \/ (Len(ts) >= 1 /\ ts[1].k # "num") \/ (Len(ts) = 2 /\ (ts[2].k # "str" \/ SubSeq(ts[2].s, 1, 1) # "\""))
      ds == Chars(ts[1].s)
      v == FoldLeft(LAMBDA a, x : IF x \notin Digits \/ a < 0 \/ a > 40000 THEN -1 ELSE a * 10 + DigitVal[x], 0, ds)
      \* the physical line on which the next row begins
      next == RowLine(TX(r), s.p)
  IN IF \E i \in 1..Len(ts) : ts[i].k \in Wilds \cup {"bad"} THEN Free(r)
     ELSE IF bad THEN Wrong(r)
     ELSE IF v < 1 \/ v > 32767 THEN Free(r)
     ELSE [NextRow(r) EXCEPT !.src[Len(r.src)].off = v - next, !.src[Len(r.src)].name = IF Len(ts) = 2 THEN Path(Inner(ts[2].s)) ELSE @]

Directive(r) ==
  LET ts == r.row
      d == IF Len(ts) >= 2 THEN ts[2] ELSE T("end", "", FALSE, 0)
      arg == SubSeq(ts, 3, Len(ts))
      skip == NextRow(r)
      isif == d.k = "id" /\ d.s \in {"if", "ifdef", "ifndef"}
      c == Top(r.conds)
  IN CASE d.k = "id" /\ d.s = "endif" ->
          (IF ~InFile(r) THEN Wrong(r) ELSE IF Len(ts) > 2 /\ c.up THEN Free(r) ELSE [NextRow(r) EXCEPT !.conds = Front1(@)])
     [] d.k = "id" /\ d.s = "else" ->
          (IF ~InFile(r) THEN Wrong(r)
           ELSE IF ~c.up THEN (IF c.els THEN Free(r) ELSE [skip EXCEPT !.conds[Len(r.conds)].els = TRUE])
           ELSE IF c.els \/ Len(ts) > 2 THEN Wrong(r)
           ELSE [NextRow(SetCond(r, ~c.taken)) EXCEPT !.conds[Len(r.conds)].els = TRUE])
     [] d.k = "id" /\ d.s = "elif" ->
          (IF ~InFile(r) THEN Wrong(r)
           ELSE IF ~c.up THEN (IF c.els THEN Free(r) ELSE skip)
           ELSE IF c.els THEN Wrong(r)
           ELSE IF c.taken THEN NextRow(SetCond(r, FALSE))
           ELSE StartIf(r, arg, "elif"))
     [] ~Live(r) -> (IF isif THEN (IF Len(r.conds) >= 30 THEN Free(r) ELSE NextRow(Push(r, FALSE))) ELSE skip)
     [] Live(r) /\ d.k = "end" ->   \* a line with only # may be passed on, it says nothing to the compiler
          (LET q == Obs(r.oc) IN
           IF q.t.s = "#" /\ q.o.line = r.rl /\ LexTok(C.out, q.o.p).k \in {"nl", "eof"} THEN [skip EXCEPT !.oc = q.o] ELSE skip)
     [] Live(r) /\ isif /\ Len(r.conds) >= 30 -> Free(r)
     [] Live(r) /\ isif /\ Len(r.conds) < 30 ->
          IF d.s = "if" THEN StartIf(r, arg, "if")
          ELSE IF Len(arg) # 1 \/ arg[1].k # "id" THEN Wrong(r)
          ELSE NextRow(Push(r, (arg[1].s \in DOMAIN r.mac \cup Builtins) = (d.s = "ifdef")))
     [] Live(r) /\ d.k = "id" /\ d.s = "define" -> (LET q == Define(r, arg) IN IF q.out # "" THEN q ELSE NextRow(q))
     [] Live(r) /\ d.k = "id" /\ d.s = "undef" ->
          IF Len(arg) # 1 \/ arg[1].k # "id" THEN Wrong(r)
          ELSE IF arg[1].s \in Builtins \cup {"defined", "__STDC__"} THEN Free(r) ELSE NextRow(UnMac(r, arg[1].s))
     [] Live(r) /\ d.k = "id" /\ d.s = "include" ->
          IF arg # <<>> /\ (arg[1].k = "str" \/ Is(arg[1], "<")) THEN DoInclude(r, arg) ELSE Expand(r, arg, "include")
     [] Live(r) /\ d.k = "id" /\ d.s = "line" -> Expand(r, arg, "line")
     [] Live(r) /\ d.k = "id" /\ d.s = "error" -> Wrong(r)
     [] Live(r) /\ d.k = "id" /\ d.s = "warning" -> skip
     [] Live(r) /\ d.k = "id" /\ d.s = "pragma" ->
          (LET q == FoldLeft(LAMBDA a, t : IF a.out # "" THEN a ELSE Emit(a, t), r, ts) IN IF q.out # "" THEN q ELSE NextRow(q))
     [] Live(r) /\ d.k = "num" -> Free(r)
     [] Live(r) /\ d.k \notin {"id", "num", "end"} -> Wrong(r)
     [] OTHER -> Free(r)

Row(r) ==
  IF r.row # <<>> /\ Is(r.row[1], "#") THEN Directive(r)
  ELSE IF ~Live(r) \/ r.row = <<>> THEN [NextRow(r) EXCEPT !.amb = r.amb]
  ELSE IF r.amb /\ Is(r.row[1], "(") THEN Free(r)
  ELSE Expand([r EXCEPT !.amb = FALSE], r.row, "text")

\* macro replacement -------------------------------------------------------
Fr(r) == Top(r.fr)
SetFr(r, f) == [r EXCEPT !.fr[Len(r.fr)] = f]
\* ts takes the place of a macro call
SetIn(r, f, ts, rest) == IF \E i \in 1..Len(ts) : ts[i].k = "bad" THEN Free(r) ELSE SetFr(r, [f EXCEPT !.in = ts \o rest])
\* a token is final
Done(r, t, rest) ==
  IF Len(r.fr) = 1 /\ r.mode = "text" THEN (LET q == Emit(r, t) IN IF q.out # "" THEN q ELSE [q EXCEPT !.fr[1].in = rest])
  ELSE SetFr(r, [Fr(r) EXCEPT !.in = rest, !.acc = Append(@, t)])
Open(r) == Len(r.fr) = 1 /\ r.mode = "text" /\ r.block = ""
BuiltinTok(r, t) ==
  CASE t.s = "__LINE__" -> IF r.multi THEN T("anynum", "", t.w, t.l) ELSE T("num", ToString(t.l), t.w, t.l)
    [] t.s = "__FILE__" -> T("file", "", t.w, t.l)
    [] OTHER -> T("anystr", "", t.w, t.l)
\* the frame's tokens are used up
Finish(r) ==
  LET f == Fr(r) IN
  IF Len(r.fr) > 1 THEN \* an argument has been expanded
     LET p == r.fr[Len(r.fr) - 1] IN
     [r EXCEPT !.fr = SubSeq(@, 1, Len(@) - 2) \o <<[p EXCEPT !.call.exp[p.call.i] = f.acc, !.call.i = @ + 1]>>]
  ELSE CASE r.mode = "text" -> NextRow(r)
         [] r.mode \in {"if", "elif"} -> DoIf(r, f.acc, r.mode)
         [] r.mode = "include" -> DoInclude(r, f.acc)
         [] r.mode = "line" -> DoLine(r, f.acc)
Exp(r) ==
  LET f == Fr(r) IN
  IF f.call.on
  THEN \* arguments of a call are expanded one after the other
    LET c == f.call  mc == r.mac[c.name] IN
    IF c.i > Len(c.raw)
    THEN SetIn(r, [f EXCEPT !.call = NoCall], Subst(mc, c.raw, c.exp, c.hs, c.w, c.l), f.in)
    ELSE IF c.i \in Plain(mc) THEN [r EXCEPT !.fr = Append(@, Frame(c.raw[c.i]))]
    ELSE SetFr(r, [f EXCEPT !.call.i = @ + 1])
  ELSE IF f.in = <<>> THEN Finish(r)
  ELSE
  LET t == f.in[1]  rest == Tail(f.in) IN
  IF t.k = "bad" \/ LongString(t) THEN Free(r)
  ELSE IF t.k # "id" \/ t.s \in t.h THEN Done(r, t, rest)
  ELSE IF ("?" \o t.s) \in t.h THEN Free(r)
  ELSE IF t.s \in Builtins THEN SetFr(r, [f EXCEPT !.in = <<BuiltinTok(r, t)>> \o rest])
  ELSE IF t.s \notin DOMAIN r.mac THEN Done(r, t, rest)
  ELSE
  LET mc == r.mac[t.s]  hs == t.h \cup {t.s} IN
  IF ~mc.fn THEN SetIn(r, f, Subst(mc, <<>>, <<>>, hs, t.w, t.l), rest)
  ELSE IF rest = <<>> THEN (IF Open(r) THEN [r EXCEPT !.ph = "more"] ELSE Done(r, t, rest))
  ELSE IF ~Is(rest[1], "(") THEN Done(r, t, rest)
  ELSE LET g == Gather(Tail(rest)) IN
       IF g.done = 0
       THEN (IF Open(r) THEN [r EXCEPT !.ph = "more"] ELSE IF r.block = "dir" THEN Free(r) ELSE IF Len(r.fr) > 1 THEN Free(r) ELSE Wrong(r))
       ELSE LET args == IF mc.ps = <<>> /\ g.args = <<<<>>>> THEN <<>> ELSE g.args IN
            IF Len(args) # Len(mc.ps) THEN (IF args = <<<<>>>> \/ args = <<>> THEN Free(r) ELSE Wrong(r))
            ELSE IF \E i \in 1..Len(args) : args[i] = <<>> THEN Free(r)
            ELSE LET rp == rest[g.done + 1].h
                     \* whether a macro is hidden is unspecified if its name came from the replacement of it and its ")" did not
                     hs2 == {x \in t.h : x \in rp} \cup {t.s} \cup {IF SubSeq(x, 1, 1) = "?" THEN x ELSE "?" \o x : x \in t.h \ rp} IN
                 SetFr(r, [f EXCEPT !.in = SubSeq(rest, g.done + 2, Len(rest)),
                                    !.call = [on |-> TRUE, name |-> t.s, raw |-> [i \in 1..Len(args) |-> WithW(args[i], FALSE)],
                                              exp |-> [i \in 1..Len(args) |-> <<>>], i |-> 1, hs |-> hs2, w |-> t.w, l |-> t.l]])

MaxSteps == 40000
Advance(r) ==
  IF step > MaxSteps THEN End(r, "long")
  ELSE CASE r.ph = "opt" -> IF r.oi > Len(C.opts) THEN [r EXCEPT !.ph = "lex"] ELSE Option(r)
         [] r.ph = "lex" -> Lex(r, FALSE)
         [] r.ph = "more" -> Lex(r, TRUE)
         [] r.ph = "morerow" -> MoreRow(r)
         [] r.ph = "row" -> Row(r)
         [] r.ph = "exp" -> Exp(r)
Init == cid \in 1..Len(Cases) /\ step = 0 /\ m = [out |-> "", ph |-> "start"]
Next ==
  \/ /\ m.out = ""
     /\ \E r \in {IF m.ph = "start" THEN (IF C.crash # "" THEN [Start EXCEPT !.out = "crash", !.why = C.crash] ELSE Start) ELSE Advance(m)} : m' = r
     /\ step' = step + 1 /\ cid' = cid
     /\ (m'.out # "") => PrintT(<<IF m'.out \in {"free", "long"} THEN m'.out ELSE IF C.rc # 0 THEN "diagnosed" ELSE "judged", cid>>)
  \/ m.out # "" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<cid, step>>
Fine == {"", "agrees", "free", "long"}
Shown == [case |-> cid, name |-> C.name, out |-> m.out, why |-> IF m.ph = "start" THEN <<>> ELSE m.why]
\* A rejected case is named and ends the run; TLC's own error trace would print thousands of states.
Conforms == m.out \in Fine \/ (PrintT(<<"reject", cid, Shown>>) /\ TLCSet("exit", TRUE))
=============================================================================
