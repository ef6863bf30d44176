------------------------------ MODULE NumbersMC ------------------------------
(***************************************************************************)
(* The exact arithmetic of Numbers against TLC's own integers, for every   *)
(* number of 16 bits: reading and fitting integers of every width,         *)
(* conversion to a double and back, rounding to 53 bits, widening singles. *)
(***************************************************************************)
EXTENDS Numbers, TLC

CONSTANTS Range
VARIABLE n      \* all that follows is about this number
More == (n + 1) \in Range /\ (n + 1) % 256 # 0 /\ n' = n + 1
Start == n \in {x \in Range : x % 256 = 0}
Little == 0..511 \cup 2048..2303 \cup 32512..33023 \cup 65280..65791 \cup -256..-1 \cup -33024..-32513
All == -65792..66559

V == FromSmall(n)
Abs == IF n < 0 THEN -n ELSE n
\* two's complement in w bytes, little-endian
Byte(x, i) == IF i > 3 THEN (IF n < 0 THEN 255 ELSE 0)
              ELSE LET y == (IF n < 0 THEN -n - 1 ELSE n) \div Pow2(8 * (i - 1))
                   IN  IF n < 0 THEN 255 - (y % 256) ELSE y % 256
Twos(w) == TLCEval([i \in 1..w |-> Byte(n, i)])

Signed == \A w \in 3..8 : FromSignedLE(Twos(w)) = V
Short == (n >= -32768 /\ n <= 32767) => FromSignedLE(Twos(2)) = V
Unsigned == n >= 0 => \A w \in 3..8 : FromUnsignedLE(Twos(w)) = V
Fits == /\ FitsSigned(V, 1) = (n >= -128 /\ n <= 127)
        /\ FitsSigned(V, 2) = (n >= -32768 /\ n <= 32767)
        /\ FitsUnsigned(V, 1) = (n >= 0 /\ n <= 255)
        /\ FitsUnsigned(V, 2) = (n >= 0 /\ n <= 65535)
        /\ FitsSigned(V, 8) /\ (FitsUnsigned(V, 8) = (n >= 0))

\* the value of a double whose value is an integer of up to 30 bits
RECURSIVE Sig(_, _)
Sig(b, i) == IF i < 0 THEN 1 ELSE 2 * Sig(b, i - 1) + F64FracBit(b, 51 - i)
Exact == LET d == TLCEval(IntToF64(V)[2])
             e == UExp(d)
         IN  /\ IF n = 0 THEN d = <<0, 0, 0, 0, 0, 0, 0, 0>>
                ELSE /\ F64Sign(d) = (IF n < 0 THEN 1 ELSE 0)
                     /\ e \in 0..17
                     /\ Sig(d, e - 1) = Abs
                     /\ \A i \in 0..(51 - e) : F64FracBit(d, i) = 0
             /\ TruncF64(d) = V /\ IntExactF64(V)

\* 2^53 + n and 2^54 + n, rounded half to even
Around(k) == IntV(0, <<Abs % 256, (Abs \div 256) % 256, Abs \div 65536, 0, 0, 0, k>>)
Rounds(k, step) == LET low == Abs % step
                       q == Abs \div step
                       up == IF 2 * low > step THEN 1 ELSE IF 2 * low < step THEN 0 ELSE q % 2
                       r == (q + up) * step
                   IN  /\ TruncF64(TLCEval(IntToF64(TLCEval(Around(k)))[2])) = IntV(0, <<r % 256, (r \div 256) % 256, r \div 65536, 0, 0, 0, k>>)
                       /\ IntExactF64(Around(k)) = (low = 0)
Rounding == Rounds(32, 2) /\ Rounds(64, 4) /\ Rounds(16, 1)

\* the single whose upper half is n: widened, it has the same fields
Single == n >= 0 /\ n <= 65535 =>
  LET b == <<0, 0, n % 256, n \div 256>>
      e == (n \div 128) % 256
      f == n % 128
      v == TLCEval(FromF32(b))
  IN  IF e = 255 /\ f # 0 THEN v = NaN
      ELSE /\ v[1] = "flt" /\ F64Sign(v[2]) = n \div 32768
           /\ IF e = 255 THEN F64Exp(v[2]) = 2047 /\ F64FracZero(v[2])
              ELSE IF e > 0 THEN UExp(v[2]) = e - 127 /\ v[2][7] % 16 = f \div 8 /\ v[2][6] = (f % 8) * 32 /\ ExactF32Normal(v[2])
              \* f * 2^-133
              ELSE IF f = 0 THEN IsZeroF(v)
              ELSE Sig(v[2], 6) = f * Pow2(7 + -133 - UExp(v[2]))
\* the least singles: n * 2^-149
Least == n > 0 /\ n <= 65535 =>
  LET v == TLCEval(FromF32(<<n % 256, n \div 256, 0, 0>>))
      p == UExp(v[2]) + 149
  IN  p \in 0..15 /\ Sig(v[2], p - 1) = n /\ v[2][1] = 0 /\ v[2][2] = 0 /\ v[2][3] = 0

=============================================================================
