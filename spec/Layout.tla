------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Why documents are laid out correctly: how the encoder places values,    *)
(* chooses the width of collections and turns positions into references,   *)
(* with small limits, for every arrangement of values up to a size.        *)
(*                                                                         *)
(* The output is a sequence of bytes, of which the first of each value     *)
(* says what the value is; <<"x">> is any other byte.  Values in slots:    *)
(*   <<"v", tree>>                         a value which fits every slot   *)
(*   <<"p", distance>> <<"P", distance>>   references, narrow and wide     *)
(* and elsewhere                                                           *)
(*   <<"h", tree, size>>                   a value of some size            *)
(*   <<"c", kind, slots, wide, size>>      the header of a collection      *)
(*                                                                         *)
(* Variant "real" is the library.  Wrong designs, which must be refuted:   *)
(*   "header"  the width is chosen without the header and the slots        *)
(*   "start"   references are made from the collection's start             *)
(*   "unsorted" references are made before the entries are sorted          *)
(*   "root"    the root is narrow however far the collection is            *)
(*   "odd"     the output is not padded to even positions                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Limit,     \* the largest distance for which the encoder writes a narrow reference
          Hard,      \* the largest distance which a narrow reference can hold
          LongCount, \* collections of so many elements have a longer header
          Sizes,     \* the sizes of values outside collections
          Keys,      \* keys; those below 10 are inline or shared, others are written before
          Calls,     \* how many calls
          Prefixes,  \* how much may be there already
          Variant

VARIABLES out, stack, root, calls

vars == <<out, stack, root, calls>>

X == <<"x">>
HeadSize(n) == IF n < LongCount THEN 2 ELSE 3 + (n % 2)
Fill(n) == [i \in 1..n |-> X]
Even(o) == IF Len(o) % 2 = 1 /\ Variant # "odd" THEN Append(o, X) ELSE o
\* append a value of some size
Put(o, cell, size) == Even(Append(o, cell) \o Fill(size - 1))

Frame(kind) == [kind |-> kind, items |-> <<>>, key |-> <<>>]

Init == /\ \E n \in Prefixes : out = Even(Fill(n))
        /\ stack = <<>> /\ root = <<>> /\ calls = 0

Top == stack[Len(stack)]
Open == stack # <<>>
WantsValue == Open /\ (Top.kind = "arr" \/ Top.key # <<>>)

\* items: <<key slot, key, value slot, tree>>; in arrays the first two are <<>>
PushTo(s, slot, tree) ==
  LET f == s[Len(s)]
      item == IF f.kind = "arr" THEN <<<<>>, <<>>, slot, tree>> ELSE <<f.key[1], f.key[2], slot, tree>>
  IN  [s EXCEPT ![Len(s)] = [f EXCEPT !.items = Append(@, item), !.key = <<>>]]

Count == calls < Calls /\ calls' = calls + 1

Small == Count /\ WantsValue /\ stack' = PushTo(stack, <<"v", <<"n", calls>>>>, <<"n", calls>>) /\ UNCHANGED <<out, root>>
Large == /\ Count /\ WantsValue
         /\ \E n \in Sizes :
              /\ stack' = PushTo(stack, <<"at", Len(out)>>, <<"h", calls>>)
              /\ out' = Put(out, <<"h", <<"h", calls>>, n>>, n)
         /\ UNCHANGED root
Key == /\ Count /\ Open /\ Top.kind = "dict" /\ Top.key = <<>>
       /\ \E k \in Keys \ {Top.items[i][2] : i \in DOMAIN Top.items} :
            IF k < 10
            THEN stack' = [stack EXCEPT ![Len(stack)].key = <<<<"v", <<"k", k>>>>, k>>] /\ UNCHANGED out
            ELSE /\ stack' = [stack EXCEPT ![Len(stack)].key = <<<<"at", Len(out)>>, k>>]
                 /\ out' = Put(out, <<"h", <<"k", k>>, 3>>, 3)
       /\ UNCHANGED root
Begin == /\ Count /\ root = <<>> /\ (WantsValue \/ ~Open)
         /\ \E k \in {"arr", "dict"} : stack' = Append(stack, Frame(k))
         /\ UNCHANGED <<out, root>>

RECURSIVE Insert(_, _), Sorted(_)
Insert(x, s) == IF s = <<>> \/ x[2] < s[1][2] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(x, Tail(s))
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(s[1], Sorted(Tail(s)))

RECURSIVE Flat(_)
Flat(items) == IF items = <<>> THEN <<>> ELSE <<items[1][1], items[1][3]>> \o Flat(Tail(items))
Slots(f, items) == IF f.kind = "arr" THEN [i \in DOMAIN items |-> items[i][3]] ELSE Flat(items)

\* the slots as bytes; slot i is at first + (i-1)*w
RECURSIVE Bytes(_, _, _, _)
Bytes(slots, refs, w, i) ==
  IF i > Len(slots) THEN <<>>
  ELSE <<IF slots[i][1] = "at" THEN <<IF w = 2 THEN "p" ELSE "P", refs[i]>> ELSE slots[i]>> \o Fill(w - 1) \o Bytes(slots, refs, w, i + 1)

End ==
  /\ Open /\ Top.key = <<>>
  /\ LET f == Top
         items == IF f.kind = "dict" THEN Sorted(f.items) ELSE f.items
         slots == Slots(f, items)
         before == Slots(f, f.items)
         n == Len(slots)
         head == HeadSize(Len(items))
         end == IF Variant = "header" THEN Len(out) ELSE Len(out) + head + (head % 2) + 2 * n
         wide == \E i \in 1..n : slots[i][1] = "at" /\ end - slots[i][2] > Limit
         w == IF wide THEN 4 ELSE 2
         start == Len(out)
         o2 == Put(out, <<"c", f.kind, n, wide, head>>, head)
         ref == [i \in 1..n |->
                   IF slots[i][1] # "at" THEN 0
                   ELSE LET at == IF Variant = "unsorted" THEN (CHOOSE j \in 1..n : before[j] = slots[i]) ELSE i
                        IN  IF Variant = "start" THEN start - slots[i][2] ELSE Len(o2) + (at - 1) * w - slots[i][2]]
         o3 == o2 \o Bytes(slots, ref, w, 1)
         tree == <<f.kind, IF f.kind = "arr" THEN [i \in DOMAIN items |-> items[i][4]]
                           ELSE [i \in DOMAIN items |-> <<items[i][2], items[i][4]>>]>>
         rest == SubSeq(stack, 1, Len(stack) - 1)
         dist == Len(o3) - start
     IN  IF rest # <<>>
         THEN out' = o3 /\ stack' = PushTo(rest, <<"at", start>>, tree) /\ UNCHANGED root
         ELSE /\ stack' = <<>> /\ root' = <<tree>>
              /\ out' = IF dist <= Limit \/ Variant = "root" THEN Put(o3, <<"p", dist>>, 2)
                        ELSE Put(Put(o3, <<"P", dist>>, 4), <<"p", 4>>, 2)
  /\ UNCHANGED calls

Next == Small \/ Large \/ Key \/ Begin \/ End

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Reading, as the format says: slot by slot, following references, which  *)
(* hold half a distance in as many bits as there are.                      *)
(***************************************************************************)
Bad == <<"bad", 0>>
At(o) == IF o >= 0 /\ o < Len(out) THEN out[o + 1] ELSE Bad

\* a value ends before what refers to it
Size(c) == CASE c[1] = "h" -> c[3] [] c[1] = "c" -> c[5] + c[3] * (IF c[4] THEN 4 ELSE 2) [] OTHER -> 2

RECURSIVE ReadAt(_), ReadSlot(_, _)
ReadSlot(o, w) ==
  LET c == At(o)
  IN  IF c[1] = (IF w = 2 THEN "p" ELSE "P")
      THEN IF c[2] <= 0 \/ c[2] % 2 = 1 \/ (w = 2 /\ c[2] > Hard) THEN Bad
           ELSE LET t == At(o - c[2])
                IN  IF t[1] \in {"p", "P"} THEN (IF c[2] >= 4 THEN ReadSlot(o - c[2], 4) ELSE Bad)
                    ELSE IF Size(t) > c[2] THEN Bad
                    ELSE ReadAt(o - c[2])
      ELSE IF c[1] = "v" THEN c[2] ELSE Bad
ReadAt(o) ==
  LET c == At(o)
  IN  IF o % 2 = 1 THEN Bad
      ELSE IF c[1] = "h" THEN c[2]
      ELSE IF c[1] # "c" THEN Bad
      ELSE LET w == IF c[4] THEN 4 ELSE 2
               first == o + c[5] + (c[5] % 2)
               slot(i) == ReadSlot(first + (i - 1) * w, w)
           IN  IF c[2] = "arr" THEN <<"arr", TLCEval([i \in 1..c[3] |-> slot(i)])>>
               ELSE <<"dict", TLCEval([i \in 1..(c[3] \div 2) |-> <<slot(2 * i - 1)[2], slot(2 * i)>>])>>

\* A finished document reads as what was written.
Reads == root # <<>> => ReadSlot(Len(out) - 2, 2) = root[1]
\* What the keys of a dict are: sorted, without repetition
RECURSIVE KeysSorted(_)
KeysSorted(t) ==
  CASE t[1] = "arr" -> (\A i \in DOMAIN t[2] : KeysSorted(t[2][i]))
    [] t[1] = "dict" -> /\ \A i \in DOMAIN t[2] : KeysSorted(t[2][i][2])
                        /\ \A i \in 1..(Len(t[2]) - 1) : t[2][i][1] < t[2][i + 1][1]
    [] OTHER -> TRUE
Searchable == root # <<>> => KeysSorted(root[1])
Aligned == Len(out) % 2 = 0

=============================================================================
