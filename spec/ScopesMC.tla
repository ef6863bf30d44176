------------------------------ MODULE ScopesMC ------------------------------
(***************************************************************************)
(* Why the registry is right: a map from address ranges to weak references *)
(* (as the library has it) answers every lookup as Scopes requires, however *)
(* memory is reused; and all sequences of calls for the harness.           *)
(*                                                                         *)
(* Memory is Cells cells; data occupies an interval of cells.              *)
(***************************************************************************)
EXTENDS Scopes, TLC, Json

CONSTANTS Cells, MaxScopes, Depth, MaxHandles

VARIABLES scopes,
          map,       \* the range map: the weak reference at each cell, 0 for none
          hist

vars == <<scopes, map, hist>>

Cell == 1..Cells

Init == scopes = <<>> /\ map = [a \in Cell |-> 0] /\ hist = <<>>

Log(c) == hist' = IF Depth > 0 THEN Append(hist, c) ELSE <<>>

Free(lo, hi) == \A i \in DOMAIN scopes : InUse(scopes, i) => ~(scopes[i].lo < hi /\ lo < scopes[i].hi)

\* inserting into the map overwrites whatever stale entries are there
Insert(lo, hi, i) == [a \in Cell |-> IF a >= lo /\ a < hi THEN i ELSE map[a]]
Erase(lo, hi) == [a \in Cell |-> IF a >= lo /\ a < hi THEN 0 ELSE map[a]]

Create(lo, hi, sk) ==
  /\ Len(scopes) < MaxScopes /\ Free(lo, hi)
  /\ scopes' = New(scopes, lo, hi, sk)
  /\ map' = Insert(lo, hi, Len(scopes) + 1)
  /\ Log(<<"new", lo, hi, sk>>)
\* the data of a dead scope is still held, and given to a new one
Again(i) ==
  /\ Len(scopes) < MaxScopes /\ ~Alive(scopes, i) /\ scopes[i].data > 0
  /\ \A j \in DOMAIN scopes : Alive(scopes, j) => Disjoint(scopes, i, j)
  /\ scopes' = New(scopes, scopes[i].lo, scopes[i].hi, scopes[i].sk)
  /\ map' = Insert(scopes[i].lo, scopes[i].hi, Len(scopes) + 1)
  /\ Log(<<"again", i>>)
Clone(i) == Alive(scopes, i) /\ scopes[i].n < MaxHandles /\ scopes' = AddHandle(scopes, i) /\ UNCHANGED map /\ Log(<<"clone", i>>)
Drop(i) == Alive(scopes, i) /\ scopes' = DropHandle(scopes, i) /\ UNCHANGED map /\ Log(<<"drop", i>>)
Rm(i) == Alive(scopes, i) /\ scopes' = Remove(scopes, i) /\ map' = Erase(scopes[i].lo, scopes[i].hi) /\ Log(<<"rm", i>>)
Hold(i) == Alive(scopes, i) /\ scopes[i].data = 0 /\ scopes' = [scopes EXCEPT ![i].data = 1] /\ UNCHANGED map /\ Log(<<"hold", i>>)
Release(i) == scopes[i].data = 1 /\ scopes' = [scopes EXCEPT ![i].data = 0] /\ UNCHANGED map /\ Log(<<"rel", i>>)

Next ==
  /\ Depth = 0 \/ Len(hist) < Depth
  /\ \/ \E lo, hi \in 1..(Cells + 1) : lo <= hi /\ \E sk \in (IF Depth > 0 THEN {TRUE} ELSE BOOLEAN) : Create(lo, hi, sk)
     \/ \E i \in DOMAIN scopes : Again(i) \/ Clone(i) \/ Drop(i) \/ Rm(i) \/ Hold(i) \/ Release(i)

Spec == Init /\ [][Next]_vars

\* what a lookup through the map gives
MapLookup(a) == IF map[a] = 0 THEN 0 ELSE IF Alive(scopes, map[a]) THEN map[a] ELSE 0

Inv == /\ AtMostOneOwner(scopes)
       /\ \A a \in Cell : MapLookup(a) = Containing(scopes, a)

GenPrint == (Len(hist) = Depth) => PrintT(ToJson(hist))

=============================================================================
