------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* Why looking up a key in a dict finds exactly the entry with that key:   *)
(* binary search over entries of which some are stored under the number of *)
(* a shared key and the others as strings, however the shared keys came    *)
(* about.  A key may be stored as a string although it is shared by now    *)
(* (small keys are never shared by the encoder, and keys may have been     *)
(* shared after the dict was written, or the dict come from elsewhere).    *)
(*                                                                         *)
(* Variant "real" is the library.  Wrong designs, which must be refuted:   *)
(*   "nofallback"  what is shared is not looked for among the strings      *)
(*   "inline"      one-byte keys are stored before all other strings       *)
(*   "bytes"       shared keys are sorted by their strings                 *)
(*   "first"       the shared keys are not asked when the last key is a    *)
(*                 string                                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys,    \* strings of bytes
          MaxSk, MaxEntries, Variant

VARIABLES sk,      \* the shared keys
          dict     \* the stored keys, in stored order: <<"n", number>> or <<"s", string>>

vars == <<sk, dict>>

Injective(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Sets == {s \in UNION {[1..n -> Keys] : n \in 0..MaxSk} : Injective(s)}
Shared(k) == \E i \in DOMAIN sk : sk[i] = k
Number(k) == (CHOOSE i \in DOMAIN sk : sk[i] = k) - 1

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                     ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i + 1)
Less(a, b) == LessFrom(a, b, 1)

\* the order in which entries are searched
Before(a, b) == IF a[1] = "n" THEN (IF b[1] = "n" THEN a[2] < b[2] ELSE TRUE)
                ELSE IF b[1] = "n" THEN FALSE ELSE Less(a[2], b[2])
\* and that in which they are stored
Stored(a, b) ==
  CASE Variant = "inline" /\ a[1] = "s" /\ b[1] = "s" /\ (Len(a[2]) < 2) # (Len(b[2]) < 2) -> Len(a[2]) < 2
    [] Variant = "bytes" /\ a[1] = "n" /\ b[1] = "n" -> Less(sk[a[2] + 1], sk[b[2] + 1])
    [] OTHER -> Before(a, b)

KeyOf(e) == IF e[1] = "n" THEN sk[e[2] + 1] ELSE e[2]

Init == sk \in Sets /\ dict = <<>>

\* a key which is not in the dict is added, in one of the ways in which it can be stored
Add(k) ==
  /\ Len(dict) < MaxEntries
  /\ \A i \in DOMAIN dict : KeyOf(dict[i]) # k
  /\ \E e \in {<<"s", k>>} \cup (IF Shared(k) THEN {<<"n", Number(k)>>} ELSE {}) :
       LET n == Cardinality({i \in DOMAIN dict : Stored(dict[i], e)})
       IN  dict' = SubSeq(dict, 1, n) \o <<e>> \o SubSeq(dict, n + 1, Len(dict))
  /\ UNCHANGED sk
Next == \E k \in Keys : Add(k)

Spec == Init /\ [][Next]_vars

RECURSIVE Search(_, _, _)
\* the number of the entry, or 0
Search(e, left, right) ==
  IF left >= right THEN 0
  ELSE LET mid == left + (right - left) \div 2
           at == dict[mid + 1]
       IN  IF at = e THEN mid + 1
           ELSE IF Before(at, e) THEN Search(e, mid + 1, right) ELSE Search(e, left, mid)
Find(e) == Search(e, 0, Len(dict))

UsesShared == dict # <<>> /\ (IF Variant = "first" THEN dict[Len(dict)] ELSE dict[1])[1] = "n"
Get(k, given) ==
  IF Shared(k) /\ (given \/ UsesShared)
  THEN LET r == Find(<<"n", Number(k)>>) IN IF r = 0 /\ Variant # "nofallback" THEN Find(<<"s", k>>) ELSE r
  ELSE Find(<<"s", k>>)

Right == \A k \in Keys : \A given \in BOOLEAN :
           LET r == Get(k, given)
           IN  IF r = 0 THEN \A i \in DOMAIN dict : KeyOf(dict[i]) # k ELSE KeyOf(dict[r]) = k

McKeys == {<<>>, <<97>>, <<98>>, <<97, 97>>, <<97, 98>>, <<200, 1, 1>>}
SmallKeys == {<<97>>, <<98>>, <<97, 97>>, <<200>>}
=============================================================================
