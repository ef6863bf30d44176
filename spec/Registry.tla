------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Why the registry is linearizable and cannot block: its implementation   *)
(* step by step, with a readers-writer lock around a map from addresses to *)
(* weak references, reference counts, and an allocator which gives memory  *)
(* out again.  Every operation takes effect at one step, at which its      *)
(* result is compared with Scopes.                                         *)
(*                                                                         *)
(* Variant "real" is the library.  The other variants are wrong designs,   *)
(* which TLC must refute:                                                  *)
(*   "erase"   the last drop erases the range from the map, afterwards     *)
(*   "early"   the range is entered before the memory's old entry is gone, *)
(*             i.e. the map keeps the first entry of an address            *)
(*   "into"    the caller's data is made while the lock is held            *)
(*   "nested"  a lookup takes the lock for writing before its read ends    *)
(***************************************************************************)
EXTENDS Scopes, TLC

CONSTANTS Threads, Cells, MaxScopes, Fuel, Variant

VARIABLES map,      \* cell -> number of a scope, or 0: the weak reference there
          strong,   \* number of a scope -> references
          cellOf,   \* number of a scope -> cell
          mem,      \* the cells in use
          writer, readers, poisoned,
          pc,       \* thread -> what it is doing: <<name, argument...>>
          own,      \* thread -> number of a scope -> handles
          abs,      \* the abstract registry
          fuel,     \* thread -> operations left
          wrong     \* an operation gave what it should not

vars == <<map, strong, cellOf, mem, writer, readers, poisoned, pc, own, abs, fuel, wrong>>

Ids == 1..MaxScopes
Idle == <<"idle">>

Init ==
  /\ map = [c \in Cells |-> 0] /\ strong = [i \in Ids |-> 0] /\ cellOf = [i \in Ids |-> 0] /\ mem = {}
  /\ writer = 0 /\ readers = {} /\ poisoned = FALSE
  /\ pc = [t \in Threads |-> Idle] /\ own = [t \in Threads |-> [i \in Ids |-> 0]]
  /\ abs = [i \in Ids |-> [lo |-> 0, hi |-> 0, n |-> 0, data |-> 0, removed |-> FALSE, sk |-> FALSE]]
  /\ fuel = [t \in Threads |-> Fuel] /\ wrong = FALSE

Lock == <<writer, readers, poisoned>>
Store == <<map, strong, cellOf, mem>>
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
Start(t, s) == pc[t] = Idle /\ fuel[t] > 0 /\ fuel' = [fuel EXCEPT ![t] = @ - 1] /\ Go(t, s)
Unused == {i \in Ids : cellOf[i] = 0}

\* Creating: the data, the scope, then its entry in the map
NewStart(t) ==
  /\ Unused # {}
  /\ \E c \in Cells \ mem :
       LET i == CHOOSE i \in Unused : \A j \in Unused : i <= j
       IN  /\ Start(t, <<"new-lock", i>>)
           /\ cellOf' = [cellOf EXCEPT ![i] = c] /\ mem' = mem \cup {c} /\ strong' = [strong EXCEPT ![i] = 1]
           /\ own' = [own EXCEPT ![t][i] = 1]
  /\ UNCHANGED <<map, Lock, abs, wrong>>
\* Creating with data that cannot be had: a panic
NewPanic(t) == Start(t, IF Variant = "into" THEN <<"panic-lock">> ELSE Idle) /\ UNCHANGED <<Store, Lock, own, abs, wrong>>
PanicLocked(t) ==
  /\ pc[t][1] = "panic-lock" /\ writer = 0 /\ readers = {}
  /\ poisoned' = TRUE /\ Go(t, Idle) /\ UNCHANGED <<Store, writer, readers, own, abs, fuel, wrong>>
AcquireW(t, name, next) ==
  /\ pc[t][1] = name /\ writer = 0 /\ readers = {}
  /\ IF poisoned THEN /\ wrong' = TRUE /\ Go(t, Idle) /\ UNCHANGED writer   \* unwrapping the lock panics
     ELSE /\ writer' = t /\ Go(t, <<next, pc[t][2]>>) /\ UNCHANGED wrong
  /\ UNCHANGED <<Store, readers, poisoned, own, abs, fuel>>
NewInsert(t) ==
  /\ pc[t][1] = "new-insert"
  /\ LET i == pc[t][2]
         c == cellOf[i]
     IN  /\ map' = [map EXCEPT ![c] = IF Variant = "early" /\ @ # 0 THEN @ ELSE i]
         /\ abs' = [abs EXCEPT ![i] = [lo |-> c, hi |-> c + 1, n |-> 1, data |-> 0, removed |-> FALSE, sk |-> FALSE]]
  /\ writer' = 0 /\ Go(t, Idle)
  /\ UNCHANGED <<strong, cellOf, mem, readers, poisoned, own, fuel, wrong>>

\* Looking up
FindStart(t) == \E c \in Cells : Start(t, <<"find-lock", c>>) /\ UNCHANGED <<Store, Lock, own, abs, wrong>>
FindLock(t) ==
  /\ pc[t][1] = "find-lock" /\ writer = 0
  /\ IF poisoned THEN /\ wrong' = TRUE /\ Go(t, Idle) /\ UNCHANGED readers
     ELSE /\ readers' = readers \cup {t} /\ Go(t, <<"find-get", pc[t][2]>>) /\ UNCHANGED wrong
  /\ UNCHANGED <<Store, writer, poisoned, own, abs, fuel>>
FindGet(t) ==
  /\ pc[t][1] = "find-get" /\ Go(t, <<"find-upgrade", pc[t][2], map[pc[t][2]]>>)
  /\ UNCHANGED <<Store, Lock, own, abs, fuel, wrong>>
FindUpgrade(t) ==
  /\ pc[t][1] = "find-upgrade"
  /\ LET e == pc[t][3]
         r == IF e # 0 /\ strong[e] > 0 THEN e ELSE 0
     IN  /\ wrong' = (wrong \/ r # Containing(abs, pc[t][2]) \/ (r # 0 /\ cellOf[r] \notin mem))
         /\ strong' = IF r # 0 THEN [strong EXCEPT ![r] = @ + 1] ELSE strong
         /\ own' = IF r # 0 THEN [own EXCEPT ![t][r] = @ + 1] ELSE own
         /\ abs' = IF r # 0 THEN AddHandle(abs, r) ELSE abs
  /\ Go(t, IF Variant = "nested" THEN <<"nested", pc[t][2]>> ELSE <<"find-unlock">>)
  /\ UNCHANGED <<map, cellOf, mem, Lock, fuel>>
\* a variant which wants to tidy up while it still reads
Nested(t) == pc[t][1] = "nested" /\ writer = 0 /\ readers = {} /\ Go(t, <<"find-unlock">>) /\ UNCHANGED <<Store, Lock, own, abs, fuel, wrong>>
FindUnlock(t) ==
  /\ pc[t][1] = "find-unlock" /\ readers' = readers \ {t} /\ Go(t, Idle)
  /\ UNCHANGED <<Store, writer, poisoned, own, abs, fuel, wrong>>

\* Removing
RmStart(t) == \E i \in Ids : own[t][i] > 0 /\ Start(t, <<"rm-lock", i>>) /\ UNCHANGED <<Store, Lock, own, abs, wrong>>
RmErase(t) ==
  /\ pc[t][1] = "rm-erase"
  /\ map' = [map EXCEPT ![cellOf[pc[t][2]]] = 0]
  /\ abs' = Remove(abs, pc[t][2])
  /\ writer' = 0 /\ Go(t, Idle)
  /\ UNCHANGED <<strong, cellOf, mem, readers, poisoned, own, fuel, wrong>>

\* Dropping a handle; with the last one the memory is given back
DropStart(t) ==
  \E i \in Ids :
    /\ own[t][i] > 0
    /\ Start(t, IF strong[i] = 1 THEN <<"free", i>> ELSE Idle)
    /\ own' = [own EXCEPT ![t][i] = @ - 1] /\ strong' = [strong EXCEPT ![i] = @ - 1] /\ abs' = DropHandle(abs, i)
    /\ UNCHANGED <<map, cellOf, mem, Lock, wrong>>
Free(t) ==
  /\ pc[t][1] = "free"
  /\ mem' = mem \ {cellOf[pc[t][2]]}
  /\ Go(t, IF Variant = "erase" THEN <<"rm2-lock", pc[t][2]>> ELSE Idle)
  /\ UNCHANGED <<map, strong, cellOf, Lock, own, abs, fuel, wrong>>
EraseAfter(t) ==
  /\ pc[t][1] = "rm2-erase"
  /\ map' = [map EXCEPT ![cellOf[pc[t][2]]] = 0]
  /\ writer' = 0 /\ Go(t, Idle)
  /\ UNCHANGED <<strong, cellOf, mem, readers, poisoned, own, abs, fuel, wrong>>

Step(t) ==
  \/ NewStart(t) \/ NewPanic(t) \/ PanicLocked(t) \/ AcquireW(t, "new-lock", "new-insert") \/ NewInsert(t)
  \/ FindStart(t) \/ FindLock(t) \/ FindGet(t) \/ FindUpgrade(t) \/ Nested(t) \/ FindUnlock(t)
  \/ RmStart(t) \/ AcquireW(t, "rm-lock", "rm-erase") \/ RmErase(t)
  \/ DropStart(t) \/ Free(t) \/ AcquireW(t, "rm2-lock", "rm2-erase") \/ EraseAfter(t)

Finished == \A t \in Threads : pc[t] = Idle
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars

Right == ~wrong
Available == ~poisoned
\* at rest, the map answers every lookup
AtRest == Finished => \A c \in Cells : LET e == map[c] IN (IF e # 0 /\ strong[e] > 0 THEN e ELSE 0) = Containing(abs, c)
Exclusive == writer # 0 => readers = {}

=============================================================================
