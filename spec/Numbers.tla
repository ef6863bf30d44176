------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* Exact arithmetic on the numbers a Fleece document can hold.             *)
(*                                                                         *)
(* TLC integers have 32 bits, so a 64-bit integer is represented by a sign *)
(* (0 or 1) and its magnitude as a little-endian byte sequence without     *)
(* leading zeros (most significant byte, i.e. the last one, is not 0); a   *)
(* float is the little-endian byte sequence of its IEEE 754 binary64 form, *)
(* and every NaN is the same value.                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Pow2(n) == 2^n

RECURSIVE Trim(_)
Trim(b) == IF b = <<>> THEN <<>>
           ELSE IF b[Len(b)] = 0 THEN Trim(SubSeq(b, 1, Len(b) - 1)) ELSE b

\* Two's complement negation of a little-endian byte sequence.
RECURSIVE NegBytes(_, _, _)
NegBytes(b, i, carry) ==
  IF i > Len(b) THEN <<>>
  ELSE LET x == 255 - b[i] + carry
       IN  <<x % 256>> \o NegBytes(b, i + 1, x \div 256)

IntV(sign, mag) == LET m == Trim(mag) IN <<"int", IF m = <<>> THEN 0 ELSE sign, m>>

FromUnsignedLE(b) == IntV(0, b)
FromSignedLE(b) == IF b[Len(b)] >= 128 THEN IntV(1, NegBytes(b, 1, 1)) ELSE IntV(0, b)

RECURSIVE SmallBytes(_)
SmallBytes(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o SmallBytes(n \div 256)
\* A small TLC integer.
FromSmall(n) == IF n < 0 THEN IntV(1, SmallBytes(-n)) ELSE IntV(0, SmallBytes(n))

\* Compare magnitudes: -1, 0, 1.
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpFrom(a, b, i - 1)
MagCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1
                ELSE CmpFrom(a, b, Len(a))

\* v (an IntV) lies in the range of an unsigned / signed integer of n bytes.
FitsUnsigned(v, n) == v[2] = 0 /\ Len(v[3]) <= n
FitsSigned(v, n) ==
  LET m == v[3]
  IN  \/ Len(m) < n
      \/ /\ Len(m) = n
         /\ \/ m[n] < 128
            \/ v[2] = 1 /\ m[n] = 128 /\ \A i \in 1..(n-1) : m[i] = 0

(***************************************************************************)
(* Bits of a magnitude.                                                    *)
(***************************************************************************)
RECURSIVE BitLen8(_)
BitLen8(x) == IF x = 0 THEN 0 ELSE 1 + BitLen8(x \div 2)
BitLen(m) == IF m = <<>> THEN 0 ELSE 8 * (Len(m) - 1) + BitLen8(m[Len(m)])
Bit(m, i) == LET k == i \div 8 IN IF k + 1 > Len(m) THEN 0 ELSE (m[k + 1] \div Pow2(i % 8)) % 2

\* Byte k (0-based) of a number given by its bits f[0..n-1] (f total on Nat indices).
ByteOf(f(_), k) == f(8*k) + 2*f(8*k+1) + 4*f(8*k+2) + 8*f(8*k+3)
                   + 16*f(8*k+4) + 32*f(8*k+5) + 64*f(8*k+6) + 128*f(8*k+7)

(***************************************************************************)
(* Floats                                                                  *)
(***************************************************************************)
NaN == <<"nan">>

F64Sign(b) == b[8] \div 128
F64Exp(b) == (b[8] % 128) * 16 + b[7] \div 16
F64FracZero(b) == b[7] % 16 = 0 /\ \A i \in 1..6 : b[i] = 0
F64FracBit(b, i) == (b[i \div 8 + 1] \div Pow2(i % 8)) % 2        \* i in 0..51

FromF64(b) == IF F64Exp(b) = 2047 /\ ~F64FracZero(b) THEN NaN ELSE <<"flt", b>>

RECURSIVE TopBit(_)
TopBit(n) == IF n < 2 THEN 0 ELSE 1 + TopBit(n \div 2)

\* Assemble a binary64 from sign, biased exponent, and the top 23 bits of the fraction.
MkF64(s, e, f23) ==
  LET N == f23 * 32
  IN  <<0, 0, 0, N % 256, (N \div 256) % 256, (N \div 65536) % 256,
        (e % 16) * 16 + N \div 16777216, s * 128 + e \div 16>>

\* Widen a binary32, given by its 4 little-endian bytes.
FromF32(b) ==
  LET s == b[4] \div 128
      e == (b[4] % 128) * 2 + b[3] \div 128
      m == (b[3] % 128) * 65536 + b[2] * 256 + b[1]
  IN  IF e = 255 THEN (IF m = 0 THEN <<"flt", MkF64(s, 2047, 0)>> ELSE NaN)
      ELSE IF e = 0
           THEN IF m = 0 THEN <<"flt", MkF64(s, 0, 0)>>
                ELSE LET p == TopBit(m)
                     IN  <<"flt", MkF64(s, p - 149 + 1023, (m - Pow2(p)) * Pow2(23 - p))>>
           ELSE <<"flt", MkF64(s, e - 127 + 1023, m)>>

\* A float of 32 bits is told from one of 64: <<"sgl", bytes8>>, the bytes being those of the same number in 64.
AsSgl(v) == IF v[1] = "flt" THEN <<"sgl", v[2]>> ELSE v
Dbl(v) == IF v[1] = "sgl" THEN <<"flt", v[2]>> ELSE v

IsZeroF(v) == v[1] = "flt" /\ F64Exp(v[2]) = 0 /\ F64FracZero(v[2])

(***************************************************************************)
(* Float -> integer, truncating.  Only for |v| < 2^64 (exponent < 64).     *)
(***************************************************************************)
F64IsFinite(b) == F64Exp(b) # 2047
\* unbiased exponent of a finite float
UExp(b) == F64Exp(b) - 1023
TruncF64(b) ==
  LET e == UExp(b)
      \* bit i of the truncated magnitude: significand bit (52 - e + i)
      SigBit(j) == IF j < 0 \/ j > 52 THEN 0 ELSE IF j = 52 THEN 1 ELSE F64FracBit(b, j)
      f(i) == IF i > e THEN 0 ELSE SigBit(52 - e + i)
  IN  IF F64Exp(b) = 0 \/ e < 0 THEN IntV(0, <<>>)
      ELSE IntV(F64Sign(b), [k \in 1..8 |-> ByteOf(f, k - 1)])

(***************************************************************************)
(* Integer -> binary64, rounding half to even.                             *)
(***************************************************************************)
RECURSIVE AnyBitBelow(_, _)
AnyBitBelow(m, i) == IF i <= 0 THEN FALSE ELSE Bit(m, i - 1) = 1 \/ AnyBitBelow(m, i - 1)

IntToF64(v) ==
  LET m == v[3]
      n == BitLen(m)
      \* significand bit j (52 = leading), before rounding: magnitude bit j + n - 53
      g(j) == LET i == j + n - 53 IN IF i < 0 THEN 0 ELSE Bit(m, i)
      cut == n - 53
      half == cut > 0 /\ Bit(m, cut - 1) = 1
      below == cut > 1 /\ AnyBitBelow(m, cut - 1)
      up == half /\ (below \/ g(0) = 1)
      allOnes == \A j \in 0..52 : g(j) = 1
      \* adding one to the 53-bit significand: bit j flips iff all lower bits are 1
      h(j) == IF up THEN (IF \A k \in 0..(j-1) : g(k) = 1 THEN 1 - g(j) ELSE g(j)) ELSE g(j)
      e == 1023 + n - 1 + (IF up /\ allOnes THEN 1 ELSE 0)
      fb(j) == IF j > 51 \/ (up /\ allOnes) THEN 0 ELSE h(j)
  IN  IF m = <<>> THEN <<"flt", <<0,0,0,0,0,0,0,0>>>>
      ELSE <<"flt", [k \in 1..8 |->
               IF k <= 6 THEN ByteOf(fb, k - 1)
               ELSE IF k = 7 THEN (e % 16) * 16 + ByteOf(fb, 6)
               ELSE v[2] * 128 + e \div 16]>>

\* v is exactly representable as a binary64
IntExactF64(v) ==
  LET m == v[3]
      n == BitLen(m)
  IN  n <= 53 \/ ~AnyBitBelow(m, n - 53)

\* A binary64 (bytes) which is exactly a binary32: low 29 fraction bits are 0 and the exponent fits
\* (normal range only; denormal binary32 are not needed by any rule).
ExactF32Normal(b) ==
  /\ b[1] = 0 /\ b[2] = 0 /\ b[3] = 0 /\ b[4] % 32 = 0
  /\ \/ F64Exp(b) = 0 /\ F64FracZero(b)
     \/ F64Exp(b) = 2047 /\ F64FracZero(b)
     \/ UExp(b) >= -126 /\ UExp(b) <= 127

=============================================================================
