----------------------------- MODULE MutableKeys -----------------------------
(***************************************************************************)
(* Why a mutable dict is a map from strings although its entries are kept  *)
(* under encoded keys: the number of the string, if the dict has shared    *)
(* keys with it, and the string itself otherwise.                          *)
(*                                                                         *)
(* Variant "real" is the library: the shared keys of a dict never change.  *)
(* Wrong designs, which TLC must refute: "grow", an inserted key becomes   *)
(* a shared one; "swap", the dict is given other shared keys while it has  *)
(* entries.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Keys, Values, Variant

VARIABLES sk,    \* the shared keys: strings in order
          map,   \* encoded key -> value
          abs    \* string -> value

vars == <<sk, map, abs>>

Injective(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Sets == {s \in UNION {[1..n -> Keys] : n \in 0..Cardinality(Keys)} : Injective(s)}

Shared(s, k) == \E i \in DOMAIN s : s[i] = k
Encode(s, k) == IF Shared(s, k) THEN <<"n", CHOOSE i \in DOMAIN s : s[i] = k>> ELSE <<"s", k>>
Decode(s, e) == IF e[1] = "s" THEN e[2] ELSE IF e[2] \in DOMAIN s THEN s[e[2]] ELSE "?"

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init == sk \in Sets /\ map = <<>> /\ abs = <<>>

Insert(k, v) ==
  /\ map' = (Encode(sk, k) :> v) @@ map
  /\ abs' = (k :> v) @@ abs
  /\ sk' = IF Variant = "grow" /\ ~Shared(sk, k) THEN Append(sk, k) ELSE sk
Remove(k) == map' = Without(map, Encode(sk, k)) /\ abs' = Without(abs, k) /\ UNCHANGED sk
\* a copy: every entry is decoded and encoded again with the shared keys of the copy
CopyTo(s) ==
  /\ Variant # "swap"
  /\ sk' = s
  /\ LET re(e) == Encode(s, Decode(sk, e))
     IN  map' = [x \in {re(e) : e \in DOMAIN map} |-> map[CHOOSE e \in DOMAIN map : re(e) = x]]
  /\ UNCHANGED abs
Swap(s) == Variant = "swap" /\ sk' = s /\ UNCHANGED <<map, abs>>

Next == (\E k \in Keys : Remove(k) \/ \E v \in Values : Insert(k, v)) \/ \E s \in Sets : CopyTo(s) \/ Swap(s)

Spec == Init /\ [][Next]_vars

Get(k) == IF Encode(sk, k) \in DOMAIN map THEN <<map[Encode(sk, k)]>> ELSE <<>>
Inv == /\ \A k \in Keys : Get(k) = (IF k \in DOMAIN abs THEN <<abs[k]>> ELSE <<>>)
       /\ Cardinality(DOMAIN map) = Cardinality(DOMAIN abs)
       /\ {Decode(sk, e) : e \in DOMAIN map} = DOMAIN abs

=============================================================================
