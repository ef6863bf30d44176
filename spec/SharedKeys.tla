----------------------------- MODULE SharedKeys -----------------------------
(***************************************************************************)
(* Shared keys: a numbering of strings.                                    *)
(*                                                                         *)
(* A set is the sequence of its strings in the order of first insertion;   *)
(* string number i (0-based) is set[i+1].  Sets are held by handles:       *)
(* sets is a sequence of sets.  Strings are sequences of UTF-8 bytes.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANT MaxKeys     \* 2048 in the library
MaxKeyLen == 16

(***************************************************************************)
(* Which characters are alphanumeric is a matter of Unicode; this is its   *)
(* restriction to the characters which the harness uses.                   *)
(***************************************************************************)
AsciiAlnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
\* e acute, sharp s, Omega, ya, nichi, superscript two, roman numeral five, fraction a half
OtherAlnum == {233, 223, 937, 1103, 26085, 178, 8548, 189}
\* arrow, euro, smiley, combining acute, ideographic space, middle dot
NotAlnum == {8594, 8364, 128512, 769, 12288, 183}

RECURSIVE CodePoints(_, _)
CodePoints(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] < 128 THEN <<s[i]>> \o CodePoints(s, i + 1)
  ELSE IF s[i] < 224 THEN <<(s[i] - 192) * 64 + s[i+1] - 128>> \o CodePoints(s, i + 2)
  ELSE IF s[i] < 240 THEN <<(s[i] - 224) * 4096 + (s[i+1] - 128) * 64 + s[i+2] - 128>> \o CodePoints(s, i + 3)
  ELSE <<(s[i] - 240) * 262144 + (s[i+1] - 128) * 4096 + (s[i+2] - 128) * 64 + s[i+3] - 128>> \o CodePoints(s, i + 4)

CharOk(c) == c = 95 \/ c = 45 \/ AsciiAlnum(c) \/ c \in OtherAlnum
CharKnown(c) == c < 128 \/ c \in OtherAlnum \cup NotAlnum
CharsKnown(s) == LET cs == CodePoints(s, 1) IN \A i \in DOMAIN cs : CharKnown(cs[i])
Eligible(s) == /\ Len(s) <= MaxKeyLen
               /\ LET cs == CodePoints(s, 1) IN \A i \in DOMAIN cs : CharOk(cs[i])

(***************************************************************************)
(* One set                                                                 *)
(***************************************************************************)
NONE == -1
Present(set, s) == \E i \in DOMAIN set : set[i] = s
Encode(set, s) == IF Present(set, s) THEN (CHOOSE i \in DOMAIN set : set[i] = s) - 1 ELSE NONE
Decode(set, n) == IF n < Len(set) THEN <<set[n + 1]>> ELSE <<>>
CanAdd(set, s) == Len(set) < MaxKeys /\ Eligible(s)
\* Inserting: the set afterwards, and the number
Inserted(set, s) == IF ~Present(set, s) /\ CanAdd(set, s) THEN Append(set, s) ELSE set
InsertResult(set, s) == Encode(Inserted(set, s), s)

(***************************************************************************)
(* What must be true of sets.                                              *)
(***************************************************************************)
OneToOne(set) == \A i, j \in DOMAIN set : set[i] = set[j] => i = j
Inverse(set) == \A i \in DOMAIN set : Encode(set, set[i]) = i - 1 /\ Decode(set, i - 1) = <<set[i]>>
AllEligible(set) == \A i \in DOMAIN set : Eligible(set[i])
Extends(old, new) == Len(old) <= Len(new) /\ SubSeq(new, 1, Len(old)) = old

=============================================================================
