------------------------------ MODULE Word32 ------------------------------
(* 32-bit machine words, represented by their signed value (-2^31..2^31-1), *)
(* which is exactly TLC's integer range.  Every operator is total and never *)
(* leaves that range, so TLC's overflow check doubles as a proof that the   *)
(* definitions are written correctly.                                       *)
EXTENDS Integers, Sequences, Bitwise

MinInt == -2147483647 - 1
MaxInt == 2147483647
H16 == 65536

\* IF/THEN/ELSE keeps these lazy in TLC
Lo(x) == x % H16                       \* 0..65535
Hi(x) == x \div H16                    \* -32768..32767  (floor)
UHi(x) == (x \div H16) % H16           \* 0..65535
\* word from two unsigned halves
Mk(h, l) == (IF h >= 32768 THEN h - H16 ELSE h) * H16 + l

Add(x, y) ==
  IF (x >= 0) # (y >= 0) THEN x + y
  ELSE LET l == Lo(x) + Lo(y)
           h == (Hi(x) + Hi(y) + l \div H16) % H16
       IN Mk(h, l % H16)

BNot(x) == -1 - x                        \* bitwise complement
Neg(x) == IF x = MinInt THEN MinInt ELSE -x
Sub(x, y) == IF y = MinInt THEN Add(Add(x, MaxInt), 1) ELSE Add(x, -y)

\* product modulo 2^32, built from 16x8 bit partial products
MulLo16(a, b) == \* a, b in 0..65535; result as <<hi, lo>> unsigned halves
  LET b0 == b % 256
      b1 == b \div 256
      p0 == a * b0                       \* < 2^24
      p1 == a * b1                       \* < 2^24
      \* p0 + p1 * 256
      l  == (p0 % H16) + (p1 % 256) * 256
      h  == (p0 \div H16) + (p1 \div 256) + (l \div H16)
  IN <<h, l % H16>>
Mul(x, y) ==
  LET xl == Lo(x)  xh == UHi(x)  yl == Lo(y)  yh == UHi(y)
      ll == MulLo16(xl, yl)
      lh == MulLo16(xl, yh)
      hl == MulLo16(xh, yl)
  IN Mk((ll[1] + lh[2] + hl[2]) % H16, ll[2])

\* unsigned comparison: bias both operands
Bias(x) == IF x < 0 THEN x + MaxInt + 1 ELSE x - MaxInt - 1
LtU(x, y) == Bias(x) < Bias(y)
LeU(x, y) == Bias(x) <= Bias(y)

\* logical shift right by one (result nonnegative)
Half(x) == IF x >= 0 THEN x \div 2 ELSE (x \div 2) + MaxInt + 1

\* signed division truncating toward zero, y # 0
DivS(x, y) ==
  IF y = 1 THEN x
  ELSE IF y = -1 THEN Neg(x)
  ELSE IF y = MinInt THEN (IF x = MinInt THEN 1 ELSE 0)
  ELSE IF x = MinInt
       THEN \* |x| = 2^31 : divide 2^31-1, then correct with the remainder
            LET ay == IF y < 0 THEN -y ELSE y
                q0 == MaxInt \div ay
                r0 == MaxInt % ay
                q  == IF r0 + 1 = ay THEN q0 + 1 ELSE q0
            IN IF y > 0 THEN -q ELSE q
       ELSE LET ax == IF x < 0 THEN -x ELSE x
                ay == IF y < 0 THEN -y ELSE y
                q  == ax \div ay
            IN IF (x < 0) # (y < 0) THEN -q ELSE q
ModS(x, y) == Sub(x, Mul(DivS(x, y), y))

\* unsigned division, y # 0
DivU(x, y) ==
  IF y < 0 THEN (IF LtU(x, y) THEN 0 ELSE 1)
  ELSE IF x >= 0 THEN x \div y
  ELSE LET q == (Half(x) \div y)            \* floor((x/2)/y)
           q2 == IF q > 1073741823 THEN Mul(q, 2) ELSE q * 2
           r == Sub(x, Mul(q2, y))          \* 0 <= r < 2y, as unsigned
       IN IF LtU(r, y) THEN q2 ELSE Add(q2, 1)
ModU(x, y) == Sub(x, Mul(DivU(x, y), y))

BAnd(x, y) == Mk(UHi(x) & UHi(y), Lo(x) & Lo(y))
BOr(x, y)  == Mk(UHi(x) | UHi(y), Lo(x) | Lo(y))
BXor(x, y) == Mk(UHi(x) ^^ UHi(y), Lo(x) ^^ Lo(y))

Pow2 == [i \in 0..30 |-> 2^i]
\* shifts, defined for counts 0..31
Shl(x, n) ==
  IF n = 0 THEN x
  ELSE IF n = 31 THEN (IF x % 2 = 1 THEN MinInt ELSE 0)
  ELSE LET m == x % Pow2[31 - n]     \* bits that survive, without the sign bit
           s == (x \div Pow2[31 - n]) % 2
           v == m * Pow2[n]
       IN IF s = 1 THEN v + MinInt ELSE v
ShrS(x, n) == IF n = 31 THEN (IF x < 0 THEN -1 ELSE 0) ELSE x \div Pow2[n]
ShrU(x, n) ==
  IF n = 0 THEN x
  ELSE IF n = 31 THEN (IF x < 0 THEN 1 ELSE 0)
  ELSE ((x \div Pow2[n]) % Pow2[31 - n]) + (IF x < 0 THEN Pow2[31 - n] ELSE 0)

Sex8(x)  == LET b == x % 256 IN IF b >= 128 THEN b - 256 ELSE b
Sex16(x) == LET b == x % H16 IN IF b >= 32768 THEN b - H16 ELSE b

\* little endian bytes
Byte0(x) == x % 256
Byte1(x) == (x \div 256) % 256
Byte2(x) == (x \div 65536) % 256
Byte3(x) == (x \div 16777216) % 256
FromBytes(b0, b1, b2, b3) ==
  (IF b3 >= 128 THEN b3 - 256 ELSE b3) * 16777216 + (b2 * 65536 + b1 * 256 + b0)
===========================================================================
