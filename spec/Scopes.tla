------------------------------- MODULE Scopes -------------------------------
(***************************************************************************)
(* The registry of scopes: which scope owns an address.                    *)
(*                                                                         *)
(* scopes is a sequence of records, in order of creation:                  *)
(*   lo, hi   the addresses lo..hi-1 of its data                           *)
(*   n        the number of handles to the scope                           *)
(*   data     the number of other handles to its data                      *)
(*   removed  it has been removed from the registry                        *)
(*   sk       it has shared keys                                           *)
(* A scope lives as long as it has handles.  Data is never shared by two   *)
(* living scopes, but it can be given to a new scope after the first died. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Alive(scopes, i) == scopes[i].n > 0
\* the memory is in use
InUse(scopes, i) == scopes[i].n > 0 \/ scopes[i].data > 0
Covers(scopes, i, a) == scopes[i].lo <= a /\ a < scopes[i].hi

\* The scopes which a lookup of address a may give: at most one
Owners(scopes, a) == {i \in DOMAIN scopes : Alive(scopes, i) /\ ~scopes[i].removed /\ Covers(scopes, i, a)}
\* What it does give: the number of a scope, or 0
Containing(scopes, a) == IF Owners(scopes, a) = {} THEN 0 ELSE CHOOSE i \in Owners(scopes, a) : TRUE
FindSharedKeys(scopes, a) == LET i == Containing(scopes, a)
                             IN  IF i = 0 THEN 0 ELSE IF scopes[i].sk THEN i ELSE 0

New(scopes, lo, hi, sk) == Append(scopes, [lo |-> lo, hi |-> hi, n |-> 1, data |-> 0, removed |-> FALSE, sk |-> sk])
AddHandle(scopes, i) == [scopes EXCEPT ![i].n = @ + 1]
DropHandle(scopes, i) == [scopes EXCEPT ![i].n = @ - 1]
Remove(scopes, i) == [scopes EXCEPT ![i].removed = TRUE]

\* Different data lies in different places: a condition on the environment (the allocator)
Overlap(a, b) == a.lo < b.hi /\ b.lo < a.hi
Disjoint(scopes, i, j) == ~Overlap(scopes[i], scopes[j])
AtMostOneOwner(scopes) == \A i, j \in DOMAIN scopes :
                            i # j /\ Alive(scopes, i) /\ Alive(scopes, j) => Disjoint(scopes, i, j)

=============================================================================
