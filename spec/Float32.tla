------------------------------ MODULE Float32 ------------------------------
(* IEEE-754 binary32 arithmetic on bit patterns (Word32 values), round to   *)
(* nearest even, gradual underflow.  Operations return a bit pattern; a NaN *)
(* *produced* by an operation is QNaN, which clients must treat as "some    *)
(* NaN" (payload and sign of produced NaNs are unspecified).                *)
EXTENDS Word32

FSign(x) == IF x < 0 THEN 1 ELSE 0
FExp(x)  == (x \div 8388608) % 256
FMan(x)  == x % 8388608
FPack(s, e, m) == (IF s = 1 THEN MinInt ELSE 0) + e * 8388608 + m
QNaN == 2143289344                      \* 0x7fc00000
IsNaN(x) == FExp(x) = 255 /\ FMan(x) # 0
IsInf(x) == FExp(x) = 255 /\ FMan(x) = 0
IsZero(x) == FExp(x) = 0 /\ FMan(x) = 0
FInf(s) == FPack(s, 255, 0)
FZero(s) == FPack(s, 0, 0)
FNeg(x) == IF x < 0 THEN x + MaxInt + 1 ELSE x - MaxInt - 1

\* significand and exponent such that value = sig * 2^(exp - 150), exp >= 1
Sig(x) == IF FExp(x) = 0 THEN FMan(x) ELSE FMan(x) + 8388608
Ex(x)  == IF FExp(x) = 0 THEN 1 ELSE FExp(x)

\* right shift that keeps inexactness in the last bit ("jamming")
ShiftJam(m, n) ==
  IF n <= 0 THEN m
  ELSE IF n >= 31 THEN (IF m # 0 THEN 1 ELSE 0)
  ELSE LET q == m \div Pow2[n] IN IF m % Pow2[n] # 0 /\ q % 2 = 0 THEN q + 1 ELSE q

RECURSIVE BitLen(_)
BitLen(m) == IF m = 0 THEN 0 ELSE IF m >= 65536 THEN 16 + BitLen(m \div 65536)
             ELSE IF m >= 256 THEN 8 + BitLen(m \div 256)
             ELSE IF m >= 16 THEN 4 + BitLen(m \div 16) ELSE 1 + BitLen(m \div 2)

\* Round and pack: value = (-1)^s * m * 2^(e - 150 - 3), m < 2^31, with the
\* lowest bit of m sticky.
RoundPack(s, e, m) ==
  IF m = 0 THEN FZero(s)
  ELSE
  LET bl == BitLen(m)
      \* normalise to 27 bits (24 + 3 rounding bits), but not below exponent 1
      want == bl - 27                               \* right shift if positive
      e1 == e + want
      sh == IF e1 < 1 THEN want + (1 - e1) ELSE want
      e2 == IF e1 < 1 THEN 1 ELSE e1
      m2 == IF sh >= 0 THEN ShiftJam(m, sh) ELSE m * Pow2[-sh]
      q  == m2 \div 8
      r  == m2 % 8
      q2 == IF r > 4 \/ (r = 4 /\ q % 2 = 1) THEN q + 1 ELSE q
      e3 == IF q2 >= 16777216 THEN e2 + 1 ELSE e2
      q3 == IF q2 >= 16777216 THEN q2 \div 2 ELSE q2
  IN IF e3 >= 255 THEN FInf(s)
     ELSE IF q3 < 8388608 THEN FPack(s, 0, q3)
     ELSE FPack(s, e3, q3 - 8388608)

FAdd(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN QNaN
  ELSE IF IsInf(x) THEN (IF IsInf(y) /\ FSign(x) # FSign(y) THEN QNaN ELSE x)
  ELSE IF IsInf(y) THEN y
  ELSE
  LET big == IF Ex(x) >= Ex(y) THEN x ELSE y
      sml == IF Ex(x) >= Ex(y) THEN y ELSE x
      a == Sig(big) * 8
      b == ShiftJam(Sig(sml) * 8, Ex(big) - Ex(sml))
      sa == FSign(big)
      sb == FSign(sml)
  IN IF sa = sb
     THEN IF a + b = 0 THEN FZero(sa) ELSE RoundPack(sa, Ex(big), a + b)
     ELSE IF a = b THEN FZero(0)
     ELSE IF a > b THEN RoundPack(sa, Ex(big), a - b)
     ELSE RoundPack(sb, Ex(big), b - a)
FSub(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN QNaN ELSE FAdd(x, FNeg(y))

RECURSIVE NormShift(_, _)
NormShift(m, n) == IF m >= 8388608 THEN n ELSE NormShift(2 * m, n + 1)

FMul(x, y) ==
  LET s == (FSign(x) + FSign(y)) % 2 IN
  IF IsNaN(x) \/ IsNaN(y) THEN QNaN
  ELSE IF IsInf(x) \/ IsInf(y)
       THEN (IF IsZero(x) \/ IsZero(y) THEN QNaN ELSE FInf(s))
  ELSE IF IsZero(x) \/ IsZero(y) THEN FZero(s)
  ELSE
  \* 24x24 bit product in 12 bit limbs; keep the top bits and a sticky bit
  LET nx == NormShift(Sig(x), 0)
      ny == NormShift(Sig(y), 0)
      a == Sig(x) * Pow2[nx]
      b == Sig(y) * Pow2[ny]
      a1 == a \div 4096  a0 == a % 4096
      b1 == b \div 4096  b0 == b % 4096
      low == a0 * b0                                  \* < 2^24
      mid == a1 * b0 + a0 * b1 + (low \div 4096)      \* < 2^26
      hi  == a1 * b1 + (mid \div 4096)                \* < 2^25
      \* product = hi * 2^24 + (mid % 4096) * 2^12 + (low % 4096)
      \* keep hi * 32 + 5 bits of mid, sticky for the rest: weight 2^19
      m == hi * 32 + ((mid % 4096) \div 128)          \* < 2^30
      st == (mid % 128) # 0 \/ (low % 4096) # 0
      mj == IF st /\ m % 2 = 0 THEN m + 1 ELSE m
      \* value = m * 2^19 * 2^(ex-150) * 2^(ey-150) = m * 2^(e-153), e = ex+ey-128
  IN RoundPack(s, (Ex(x) - nx) + (Ex(y) - ny) - 128, mj)

RECURSIVE DivBits(_, _, _, _)
\* n more quotient bits of r / d  (0 <= r < d < 2^24)
DivBits(r, d, q, n) ==
  IF n = 0 THEN IF r # 0 /\ q % 2 = 0 THEN q + 1 ELSE q
  ELSE LET r2 == 2 * r IN
       IF r2 >= d THEN DivBits(r2 - d, d, 2 * q + 1, n - 1)
       ELSE DivBits(r2, d, 2 * q, n - 1)
FDiv(x, y) ==
  LET s == (FSign(x) + FSign(y)) % 2 IN
  IF IsNaN(x) \/ IsNaN(y) THEN QNaN
  ELSE IF IsInf(x) THEN (IF IsInf(y) THEN QNaN ELSE FInf(s))
  ELSE IF IsInf(y) THEN FZero(s)
  ELSE IF IsZero(y) THEN (IF IsZero(x) THEN QNaN ELSE FInf(s))
  ELSE IF IsZero(x) THEN FZero(s)
  ELSE
  LET nx == NormShift(Sig(x), 0)
      ny == NormShift(Sig(y), 0)
      a == Sig(x) * Pow2[nx]
      b == Sig(y) * Pow2[ny]
      q0 == IF a >= b THEN 1 ELSE 0
      r0 == IF a >= b THEN a - b ELSE a
      q == DivBits(r0, b, q0, 28)       \* a / b * 2^28, sticky, < 2^29
      e == (Ex(x) - nx) - (Ex(y) - ny)
      \* value = q * 2^-28 * 2^e = q * 2^(E - 153), E = e + 125
  IN RoundPack(s, e + 125, q)

\* int -> float
FFromInt(i) ==
  IF i = 0 THEN 0
  ELSE IF i = MinInt THEN FPack(1, 158, 0)
  ELSE LET s == IF i < 0 THEN 1 ELSE 0
           a == IF i < 0 THEN -i ELSE i
       IN RoundPack(s, 153, a)
\* unsigned -> float (bit pattern u read as unsigned)
FFromUInt(u) ==
  IF u >= 0 THEN FFromInt(u)
  ELSE LET h == Half(u)  j == IF u % 2 = 1 /\ h % 2 = 0 THEN h + 1 ELSE h
       IN RoundPack(0, 154, j)

\* float -> int, truncating; FIntOK says whether the value is in range
FIntOK(x) == ~IsNaN(x) /\ (FExp(x) < 158 \/ x = FPack(1, 158, 0))
FToInt(x) ==
  IF FExp(x) < 127 THEN 0
  ELSE IF FExp(x) >= 158 THEN MinInt
  ELSE LET sh == FExp(x) - 150
           m == Sig(x)
           v == IF sh >= 0 THEN m * Pow2[sh] ELSE IF -sh > 30 THEN 0 ELSE m \div Pow2[-sh]
       IN IF FSign(x) = 1 THEN -v ELSE v

\* comparisons: all false when unordered (except "not equal")
FKey(x) == IF x < 0 THEN -(x + MaxInt + 1) ELSE x     \* monotone, +-0 both 0
Unord(x, y) == IsNaN(x) \/ IsNaN(y)
FEq(x, y) == ~Unord(x, y) /\ FKey(x) = FKey(y)
FNe(x, y) == ~FEq(x, y)
FLt(x, y) == ~Unord(x, y) /\ FKey(x) < FKey(y)
FLe(x, y) == ~Unord(x, y) /\ FKey(x) <= FKey(y)
FGt(x, y) == ~Unord(x, y) /\ FKey(x) > FKey(y)
FGe(x, y) == ~Unord(x, y) /\ FKey(x) >= FKey(y)
===========================================================================
