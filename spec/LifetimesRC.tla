----------------------------- MODULE LifetimesRC -----------------------------
(***************************************************************************)
(* Why counting references gives the lifetimes of Lifetimes: the library's *)
(* counts are kept beside the abstract handles, for every short history.   *)
(*                                                                         *)
(*   rc    the strong references to each block of memory                   *)
(*   src   the strong references to each scope                             *)
(*   map   the registry: the scope registered for each block, held weakly  *)
(*                                                                         *)
(* Variant "real" is the library.  Wrong designs, which must be refuted:   *)
(*   "root"     a root value does not count                                *)
(*   "convert"  a conversion which fails does not release                  *)
(*   "weak"     a scope does not hold its data                             *)
(*   "entry"    the registry holds the scope                               *)
(*   "clone"    cloning a scope counts its data, too                       *)
(*   "unmap"    the last release of a scope leaves what it holds           *)
(*   "rm"       removing from the registry releases the scope              *)
(***************************************************************************)
EXTENDS LifetimesMC

CONSTANT Variant

VARIABLES rc, src, map

all == <<vars, rc, src, map>>

InitRC == Init /\ rc = <<>> /\ src = [s \in 1..0 |-> 0] /\ map = <<>>

Set(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0

\* release one reference to scope s over block b: <<src, rc>>
Release(s, b) ==
  LET left == Get(src, s) - 1
  IN  <<Set(src, s, left),
        IF left = 0 /\ Variant \notin {"unmap", "weak"} THEN Set(rc, b, Get(rc, b) - 1) ELSE rc>>

Same == UNCHANGED <<rc, src, map>>
Grew == Len(hs') > Len(hs)
New == hs'[Len(hs')]

Count(c) ==
  CASE c[1] = "mk" ->
         IF ~Grew THEN Same
         ELSE IF New.kind = "S"
         THEN /\ rc' = Set(rc, New.blk, IF Variant = "weak" THEN 0 ELSE 1)
              /\ src' = Set(src, New.scope, IF Variant = "entry" THEN 2 ELSE 1)
              /\ map' = Set(map, New.blk, New.scope)
         ELSE rc' = Set(rc, New.blk, 1) /\ map' = Set(map, New.blk, 0) /\ UNCHANGED src
    [] c[1] = "clone" ->
         IF hs[c[2]].kind = "S"
         THEN /\ src' = Set(src, hs[c[2]].scope, Get(src, hs[c[2]].scope) + 1)
              /\ rc' = IF Variant = "clone" THEN Set(rc, hs[c[2]].blk, Get(rc, hs[c[2]].blk) + 1) ELSE rc
              /\ UNCHANGED map
         ELSE rc' = Set(rc, hs[c[2]].blk, Get(rc, hs[c[2]].blk) + 1) /\ UNCHANGED <<src, map>>
    [] c[1] = "drop" ->
         LET h == hs[c[2]]
         IN  IF h.kind = "S"
             THEN src' = Release(h.scope, h.blk)[1] /\ rc' = Release(h.scope, h.blk)[2] /\ UNCHANGED map
             ELSE rc' = Set(rc, h.blk, Get(rc, h.blk) - 1) /\ UNCHANGED <<src, map>>
    [] c[1] \in {"root", "data"} ->
         IF ~Grew \/ (Variant = "root" /\ c[1] = "root") THEN Same
         ELSE rc' = Set(rc, New.blk, Get(rc, New.blk) + 1) /\ UNCHANGED <<src, map>>
    [] c[1] = "to" ->
         IF Grew \/ Variant = "convert" THEN Same
         ELSE rc' = Set(rc, hs[c[2]].blk, Get(rc, hs[c[2]].blk) - 1) /\ UNCHANGED <<src, map>>
    [] c[1] = "find" ->
         LET s == Get(map, hs[c[2]].blk)
         IN  IF Get(src, s) > 0 THEN src' = Set(src, s, Get(src, s) + 1) /\ UNCHANGED <<rc, map>> ELSE Same
    [] c[1] = "rm" ->
         LET h == hs[c[2]]
         IN  /\ map' = Set(map, h.blk, 0)
             /\ IF Variant = "rm" /\ Get(map, h.blk) # 0
                THEN src' = Release(h.scope, h.blk)[1] /\ rc' = Release(h.scope, h.blk)[2]
                ELSE UNCHANGED <<src, rc>>
    [] c[1] = "again" ->
         /\ rc' = Set(rc, New.blk, Get(rc, New.blk) + (IF Variant = "weak" THEN 0 ELSE 1))
         /\ src' = Set(src, New.scope, IF Variant = "entry" THEN 2 ELSE 1)
         /\ map' = Set(map, New.blk, New.scope)
    [] OTHER -> Same

NextRC == Next /\ Count(hist'[Len(hist')])
SpecRC == InitRC /\ [][NextRC]_all

\* how a history came about does not matter
View == <<hs, removed, blocks, rc, src, map, Len(hist), IF hist = <<>> THEN "" ELSE hist[Len(hist)][1]>>

Kept == \A b \in 1..blocks : (Get(rc, b) > 0) = Needed(hs, b)
NotNegative == (\A b \in DOMAIN rc : rc[b] >= 0) /\ (\A s \in DOMAIN src : src[s] >= 0)
Alive == \A s \in DOMAIN src : (src[s] > 0) = (\E h \in DOMAIN hs : hs[h].kind = "S" /\ hs[h].scope = s)
Found == \A b \in 1..blocks :
           LET s == Get(map, b)
           IN  Findable(hs, removed, b) = (IF Get(src, s) > 0 THEN {s} ELSE {})

=============================================================================
