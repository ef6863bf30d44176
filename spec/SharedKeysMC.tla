---------------------------- MODULE SharedKeysMC ----------------------------
(***************************************************************************)
(* The machine of shared-key sets: insertions into, copies of and saved    *)
(* states of any number of sets.                                           *)
(*                                                                         *)
(* Checked exhaustively with a small capacity (SharedKeysMC.cfg), and used *)
(* to print every sequence of calls up to a depth (SharedKeysGen.cfg),     *)
(* which the harness executes on sets of the library.                      *)
(***************************************************************************)
EXTENDS SharedKeys, TLC, Json

CONSTANTS Keys,      \* the strings inserted
          MaxSets,   \* how many sets
          Depth,     \* how many calls
          Emit       \* print the sequences of calls

VARIABLES sets,      \* sequence of sets
          hist       \* the calls so far, while they are to be printed

vars == <<sets, hist>>

\* a b ab a-b, too long, not eligible
McKeys == {<<97>>, <<98>>, <<97, 98>>, <<97, 32>>}
GenKeys == {"n1", "n2", "n3", "p7", "bad key", "seventeen_bytes__"}

Init == sets = <<<<>>>> /\ hist = <<>>

Log(c) == hist' = IF Emit \/ Depth > 0 THEN Append(hist, c) ELSE <<>>

Insert(h, k) == sets' = [sets EXCEPT ![h] = Inserted(@, k)] /\ Log(<<"ins", h, k>>)
Clone(h) == Len(sets) < MaxSets /\ sets' = Append(sets, sets[h]) /\ Log(<<"clone", h>>)
\* save and restore, directly or through a value inside a larger document
Restore(h, how) == Len(sets) < MaxSets /\ sets' = Append(sets, sets[h]) /\ Log(<<how, h>>)

Next == \E h \in DOMAIN sets :
          \/ \E k \in Keys : Insert(h, k)
          \/ Clone(h)
          \/ \E how \in {"bytes", "value"} : Restore(h, how)

Spec == Init /\ [][Next]_vars

Inv == \A h \in DOMAIN sets :
         /\ OneToOne(sets[h]) /\ Inverse(sets[h]) /\ AllEligible(sets[h]) /\ Len(sets[h]) <= MaxKeys
         \* reaching the limit does not affect those present
         /\ \A k \in Keys : Present(sets[h], k) => InsertResult(sets[h], k) = Encode(sets[h], k)

Stable == [][\A h \in DOMAIN sets : Extends(sets[h], sets'[h])]_vars

\* For printing: the calls do not depend on what the sets hold, so the sets are left alone.
GenInsert(h, k) == hist' = Append(hist, <<"ins", h, k>>) /\ UNCHANGED sets
GenNew(h, how) == Len(sets) < MaxSets /\ sets' = Append(sets, <<>>) /\ hist' = Append(hist, <<how, h>>)
GenNext ==
  /\ Len(hist) < Depth
  /\ \E h \in DOMAIN sets :
       \/ \E k \in GenKeys : GenInsert(h, k)
       \/ \E how \in {"clone", "bytes", "value"} : GenNew(h, how)
GenSpec == Init /\ [][GenNext]_vars
GenPrint == (Len(hist) = Depth) => PrintT(ToJson(hist))

=============================================================================
