---------------------------- MODULE FleeceFormat ----------------------------
(***************************************************************************)
(* The Fleece document format: which byte sequences are documents, and     *)
(* what they mean.  Written from the format's rules, not from the code.    *)
(*                                                                         *)
(* A document d is a sequence of bytes (offsets are 0-based).  Its meaning *)
(* is a tree:                                                              *)
(*   <<"null">> <<"undef">> <<"bool", b>> <<"int", sign, mag>>             *)
(*   <<"flt", bytes8>> <<"sgl", bytes8>> <<"nan">> <<"str", bytes>> <<"data", bytes>>        *)
(*     ("sgl" is to be had as 32 bits, "flt" as 64 even where it is       *)
(*     stored in 32; NaN is only one value)                                *)
(*   <<"arr", <<t1, ...>>>>  <<"dict", <<<<key, t1>>, ...>>>>              *)
(* A dict's entries are in stored order; Norm forgets that order.          *)
(*                                                                         *)
(* sk is the sequence of shared-key strings, number i being sk[i+1].       *)
(***************************************************************************)
EXTENDS Numbers, FiniteSets, TLC

At(d, o) == d[o + 1]
Slice(d, o, n) == SubSeq(d, o + 1, o + n)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

HUGE == 268435456     \* 2^28: stands for every count or length at least this large

(***************************************************************************)
(* Varint at o, not reading at or beyond lim: <<bytes read, value>>, or    *)
(* <<0, 0>> if there is none (unterminated, or more than 64 bits).         *)
(***************************************************************************)
RECURSIVE VarintFrom(_, _, _, _, _)
VarintFrom(d, o, lim, i, acc) ==
  IF o + i >= lim \/ i >= 10 THEN <<0, 0>>
  ELSE LET b == At(d, o + i)
           low == b % 128
           add == IF low = 0 THEN 0
                  ELSE IF i > 4 \/ (i = 4 /\ low > 0) THEN HUGE
                  ELSE IF i = 3 /\ low >= 128 THEN HUGE
                  ELSE low * Pow2(7 * i)
           acc2 == IF acc >= HUGE \/ add >= HUGE \/ acc + add >= HUGE THEN HUGE ELSE acc + add
       IN  IF i = 9 /\ b > 1 THEN <<0, 0>>
           ELSE IF b < 128 THEN <<i + 1, acc2>>
           ELSE VarintFrom(d, o, lim, i + 1, acc2)
Varint(d, o, lim) == VarintFrom(d, o, lim, 0, 0)

(***************************************************************************)
(* Tags                                                                    *)
(***************************************************************************)
Tag(d, o) == At(d, o) \div 16
Low(d, o) == At(d, o) % 16
IsPtr(d, o) == At(d, o) >= 128
IsArr(d, o) == Tag(d, o) = 6
IsDict(d, o) == Tag(d, o) = 7
IsColl(d, o) == Tag(d, o) \in {6, 7}
IsStrOrData(d, o) == Tag(d, o) \in {4, 5}

(***************************************************************************)
(* Strings and data: <<header size, length>>, header size 0 if malformed   *)
(***************************************************************************)
StrHead(d, o, lim) ==
  IF Low(d, o) # 15 THEN <<1, Low(d, o)>>
  ELSE LET v == Varint(d, o + 1, lim)
       IN  IF v[1] = 0 THEN <<0, 0>> ELSE <<1 + v[1], v[2]>>

(***************************************************************************)
(* Collections                                                             *)
(***************************************************************************)
Width(d, o) == IF (At(d, o) \div 8) % 2 = 1 THEN 4 ELSE 2
RawCount(d, o) == (At(d, o) % 8) * 256 + At(d, o + 1)
\* <<header size (padded to even), number of slots>>, header size 0 if the count is malformed
CollHead(d, o, lim) ==
  LET per == IF IsDict(d, o) THEN 2 ELSE 1
  IN  IF RawCount(d, o) # 2047 THEN <<2, per * RawCount(d, o)>>
      ELSE LET v == Varint(d, o + 2, lim)
           IN  IF v[1] = 0 THEN <<0, 0>>
               ELSE <<2 + v[1] + (v[1] % 2), IF v[2] >= HUGE THEN HUGE ELSE per * v[2]>>

(***************************************************************************)
(* The pointer in the slot at p.                                           *)
(***************************************************************************)
PtrOffset(d, p, w) ==
  IF w = 2 THEN 2 * ((At(d, p) % 64) * 256 + At(d, p + 1))
  ELSE IF At(d, p) % 64 # 0 THEN HUGE
  ELSE 2 * (At(d, p + 1) * 65536 + At(d, p + 2) * 256 + At(d, p + 3))
PtrExternal(d, p) == (At(d, p) \div 64) % 2 = 1

(***************************************************************************)
(* UTF-8                                                                   *)
(***************************************************************************)
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
  LET Cont(k) == k <= Len(b) /\ b[k] >= 128 /\ b[k] < 192
  IN  IF i > Len(b) THEN TRUE
      ELSE IF b[i] < 128 THEN Utf8From(b, i + 1)
      ELSE IF b[i] >= 194 /\ b[i] <= 223 THEN Cont(i+1) /\ Utf8From(b, i + 2)
      ELSE IF b[i] >= 224 /\ b[i] <= 239
           THEN /\ Cont(i+1) /\ Cont(i+2)
                /\ (b[i] = 224 => b[i+1] >= 160)
                /\ (b[i] = 237 => b[i+1] < 160)
                /\ Utf8From(b, i + 3)
      ELSE IF b[i] >= 240 /\ b[i] <= 244
           THEN /\ Cont(i+1) /\ Cont(i+2) /\ Cont(i+3)
                /\ (b[i] = 240 => b[i+1] >= 144)
                /\ (b[i] = 244 => b[i+1] < 144)
                /\ Utf8From(b, i + 4)
      ELSE FALSE
\* Plain ASCII is by far the most common, and the quantifier does not recurse.
Utf8(b) == (\A i \in DOMAIN b : b[i] < 128) \/ Utf8From(b, 1)

(***************************************************************************)
(* Order of dict keys.  A key is <<"sk", number>> or <<"str", bytes>>.     *)
(***************************************************************************)
RECURSIVE BytesLessFrom(_, _, _)
BytesLessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE BytesLessFrom(a, b, i + 1)
BytesLess(a, b) == BytesLessFrom(a, b, 1)
KeyLess(a, b) == IF a[1] = "sk" THEN IF b[1] = "sk" THEN a[2] < b[2] ELSE TRUE
                 ELSE IF b[1] = "sk" THEN FALSE ELSE BytesLess(a[2], b[2])

(***************************************************************************)
(* Severity of what is reachable:                                          *)
(*   0  well-formed: must be accepted, and read as Tree says               *)
(*   1  dubious, but inside the data: may be accepted or rejected          *)
(*   2  some reachable value or reference is not inside the data: must be  *)
(*      rejected                                                           *)
(* lim bounds a value strictly: a value must end before the reference that *)
(* leads to it, or with the slot that holds it.                            *)
(***************************************************************************)
Worst(S) == IF 2 \in S THEN 2 ELSE IF 1 \in S THEN 1 ELSE 0

RequiredScalar(d, o, lim) ==
  CASE Tag(d, o) = 1 -> 2 + (Low(d, o) % 8)
    [] Tag(d, o) = 2 -> IF Low(d, o) \div 8 = 1 THEN 10 ELSE 6
    [] IsStrOrData(d, o) -> LET h == StrHead(d, o, lim)
                            IN  IF h[2] >= HUGE THEN HUGE ELSE Max(2, h[1] + h[2])
    [] OTHER -> 2

\* Resolve the reference in slot p of width w: <<target offset, strict limit>>,
\* or <<-1, severity>> when it leads nowhere good.
RECURSIVE Resolve(_, _, _)
Resolve(d, p, w) ==
  LET off == PtrOffset(d, p, w)
      t == p - off
  IN  IF PtrExternal(d, p) \/ off = 0 \/ off >= HUGE \/ t < 0 THEN <<-1, 2>>
      ELSE IF ~IsPtr(d, t) THEN <<t, p>>
      ELSE IF t + 4 > p THEN <<-1, 1>>
      ELSE Resolve(d, t, 4)

KeyOf(d, p, w) ==
  LET o == IF IsPtr(d, p) THEN Resolve(d, p, w)[1] ELSE p
      lim == IF IsPtr(d, p) THEN Resolve(d, p, w)[2] ELSE p + w
  IN  IF Tag(d, o) = 0 THEN <<"sk", (At(d, o) % 16) * 256 + At(d, o + 1)>>
      ELSE IF Tag(d, o) = 4
           THEN LET h == StrHead(d, o, lim) IN <<"str", Slice(d, o + h[1], h[2])>>
      ELSE <<"bad", 0>>

RECURSIVE Sev(_, _, _, _)
Sev(d, sk, o, lim) ==
  LET end == Len(d)
      SlotSev(p, w) ==
        IF IsPtr(d, p)
        THEN LET r == Resolve(d, p, w) IN IF r[1] = -1 THEN r[2] ELSE Sev(d, sk, r[1], r[2])
        ELSE Sev(d, sk, p, p + w)
  IN
  IF o + 2 > end THEN 2
  ELSE IF IsColl(d, o)
  THEN IF o + 2 > lim THEN 1 ELSE
       LET h == CollHead(d, o, lim)
           w == Width(d, o)
           n == h[2]
           first == o + h[1]
           slots == {SlotSev(first + (i - 1) * w, w) : i \in 1..n}
           K(i) == KeyOf(d, first + 2 * (i - 1) * w, w)
           keys == TLCEval([i \in 1..(n \div 2) |-> K(i)])
           keyOk(i) == /\ keys[i][1] # "bad"
                       /\ keys[i][1] = "sk" => keys[i][2] < Len(sk)
           keysOk == /\ \A i \in 1..(n \div 2) : keyOk(i)
                     /\ \A i \in 1..(n \div 2 - 1) : KeyLess(keys[i], keys[i + 1])
       IN  IF h[1] = 0 THEN 1
           ELSE IF n >= HUGE \/ first + n * w > end THEN 2
           ELSE IF first + n * w > lim THEN 1
           ELSE LET s == Worst(slots)
                IN  IF s # 0 \/ ~IsDict(d, o) THEN s
                    ELSE IF keysOk THEN 0 ELSE 1
  ELSE LET h == IF IsStrOrData(d, o) THEN StrHead(d, o, lim) ELSE <<1, 0>>
           \* the size field itself may run out of the value's bounds
           req == RequiredScalar(d, o, lim)
       IN  IF h[1] = 0 THEN 1
           ELSE IF req >= HUGE \/ o + req > end THEN 2
           ELSE IF o + req > lim THEN 1
           ELSE IF Tag(d, o) = 4 /\ ~Utf8(Slice(d, o + h[1], h[2])) THEN 1
           ELSE IF Tag(d, o) = 3 /\ (Low(d, o) % 4 # 0 \/ At(d, o + 1) # 0) THEN 1
           ELSE IF Tag(d, o) = 2 /\ (Low(d, o) % 4 # 0 \/ At(d, o + 1) # 0) THEN 1
           ELSE 0

\* Severity of a whole document.
DocSev(d, sk) ==
  LET n == Len(d)
      p == n - 2
  IN  IF n < 2 \/ n % 2 # 0 THEN 2
      ELSE IF IsPtr(d, p)
           THEN LET r == Resolve(d, p, 2) IN IF r[1] = -1 THEN r[2] ELSE Sev(d, sk, r[1], r[2])
           ELSE IF n = 2 THEN Sev(d, sk, 0, 2)
           ELSE 2

WellFormed(d, sk) == DocSev(d, sk) = 0

(***************************************************************************)
(* The meaning of a well-formed document.                                  *)
(***************************************************************************)
Scalar(d, o, lim) ==
  CASE Tag(d, o) = 0 -> LET n == (At(d, o) % 16) * 256 + At(d, o + 1)
                        IN  FromSmall(IF n >= 2048 THEN n - 4096 ELSE n)
    [] Tag(d, o) = 1 -> LET b == Slice(d, o + 1, (Low(d, o) % 8) + 1)
                        IN  IF Low(d, o) \div 8 = 1 THEN FromUnsignedLE(b) ELSE FromSignedLE(b)
    [] Tag(d, o) = 2 -> IF Low(d, o) \div 8 = 1 THEN FromF64(Slice(d, o + 2, 8))
                        ELSE IF Low(d, o) = 4 THEN FromF32(Slice(d, o + 2, 4))
                        ELSE AsSgl(FromF32(Slice(d, o + 2, 4)))
    [] Tag(d, o) = 3 -> (CASE Low(d, o) = 0 -> <<"null">>
                           [] Low(d, o) = 12 -> <<"undef">>
                           [] Low(d, o) = 4 -> <<"bool", FALSE>>
                           [] Low(d, o) = 8 -> <<"bool", TRUE>>)
    [] Tag(d, o) = 4 -> LET h == StrHead(d, o, lim) IN <<"str", Slice(d, o + h[1], h[2])>>
    [] Tag(d, o) = 5 -> LET h == StrHead(d, o, lim) IN <<"data", Slice(d, o + h[1], h[2])>>

RECURSIVE TreeAt(_, _, _, _)
TreeAt(d, sk, o, lim) ==
  LET SlotTree(p, w) ==
        IF IsPtr(d, p) THEN LET r == Resolve(d, p, w) IN TreeAt(d, sk, r[1], r[2])
        ELSE TreeAt(d, sk, p, p + w)
  IN
  IF IsColl(d, o)
  THEN LET h == CollHead(d, o, lim)
           w == Width(d, o)
           first == o + h[1]
           KeyStr(k) == IF k[1] = "sk" THEN sk[k[2] + 1] ELSE k[2]
       IN  IF IsArr(d, o)
           THEN <<"arr", TLCEval([i \in 1..h[2] |-> SlotTree(first + (i - 1) * w, w)])>>
           ELSE <<"dict", TLCEval([i \in 1..(h[2] \div 2) |->
                    <<KeyStr(KeyOf(d, first + 2 * (i - 1) * w, w)),
                      SlotTree(first + (2 * i - 1) * w, w)>>])>>
  ELSE Scalar(d, o, lim)

Tree(d, sk) ==
  LET p == Len(d) - 2
  IN  IF IsPtr(d, p) THEN LET r == Resolve(d, p, 2) IN TreeAt(d, sk, r[1], r[2])
      ELSE TreeAt(d, sk, 0, 2)

(***************************************************************************)
(* Forget the order of dict entries.                                       *)
(***************************************************************************)
RECURSIVE Norm(_)
Norm(t) ==
  IF t[1] = "arr" THEN <<"arr", TLCEval([i \in DOMAIN t[2] |-> Norm(t[2][i])])>>
  ELSE IF t[1] = "dict" THEN <<"dict", {<<t[2][i][1], Norm(t[2][i][2])>> : i \in DOMAIN t[2]}, Len(t[2])>>
  ELSE t

=============================================================================
