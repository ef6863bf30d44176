--------------------------- MODULE FleeceEncoder ---------------------------
(***************************************************************************)
(* The encoder as a machine: what every call does to the document being    *)
(* written, whether it is legal, and what finishing yields.                *)
(*                                                                         *)
(* The state is a record                                                   *)
(*   stack  : the open collections, innermost last; each is a record       *)
(*            kind ("arr" / "dict"), items (trees, or <<key, tree>> pairs  *)
(*            in the order written), key (<<>> or <<the key waiting for    *)
(*            its value>>)                                                 *)
(*   closed : the top-level collection has been closed                     *)
(*   root   : <<>> or <<the tree of the closed top-level collection>>      *)
(*                                                                         *)
(* A call is a tuple whose first element is its name:                      *)
(*   <<"wv", t>>  write_value        <<"wk", k>>  write_key                *)
(*   <<"ba">> <<"ea">> <<"bd">> <<"ed">>  begin/end array/dict             *)
(*   <<"wf", t>>  write_fleece of a value whose tree is t                  *)
(*   <<"bld", t>> the legal calls which write the tree t                   *)
(*   <<"wvs", ts>> write_value for each of ts                              *)
(***************************************************************************)
EXTENDS Sequences, Naturals, FiniteSets

EmptyEncoder == [stack |-> <<>>, closed |-> FALSE, root |-> <<>>]

IsCollTree(t) == t[1] \in {"arr", "dict"}
Top(st) == st.stack[Len(st.stack)]
NoneOpen(st) == st.stack = <<>>
SetTop(st, f) == [st EXCEPT !.stack[Len(st.stack)] = f]

NewFrame(kind) == [kind |-> kind, items |-> <<>>, key |-> <<>>]

\* A value can be added to the innermost open collection.
AcceptsValue(st) == ~NoneOpen(st) /\ (Top(st).kind = "arr" \/ Top(st).key # <<>>)
\* A collection can be opened.
AcceptsColl(st) == IF NoneOpen(st) THEN ~st.closed ELSE AcceptsValue(st)
AcceptsKey(st) == ~NoneOpen(st) /\ Top(st).kind = "dict" /\ Top(st).key = <<>>

Legal(st, c) ==
  CASE c[1] = "wv"  -> AcceptsValue(st)
    [] c[1] = "wvs" -> AcceptsValue(st) /\ (Len(c[2]) < 2 \/ Top(st).kind = "arr")
    [] c[1] = "wk"  -> AcceptsKey(st)
    [] c[1] = "ba"  -> AcceptsColl(st)
    [] c[1] = "bd"  -> AcceptsColl(st)
    [] c[1] = "ea"  -> ~NoneOpen(st) /\ Top(st).kind = "arr"
    [] c[1] = "ed"  -> ~NoneOpen(st) /\ Top(st).kind = "dict" /\ Top(st).key = <<>>
    [] c[1] = "wf"  -> IF IsCollTree(c[2]) THEN AcceptsColl(st) ELSE AcceptsValue(st)
    [] c[1] = "bld" -> IF IsCollTree(c[2]) THEN AcceptsColl(st) ELSE AcceptsValue(st)

\* Add a tree to the innermost open collection, or make it the document's root.
AddTree(st, t) ==
  IF NoneOpen(st) THEN [st EXCEPT !.closed = TRUE, !.root = <<t>>]
  ELSE IF Top(st).kind = "arr" THEN SetTop(st, [Top(st) EXCEPT !.items = Append(@, t)])
  ELSE SetTop(st, [Top(st) EXCEPT !.items = Append(@, <<Top(st).key[1], t>>), !.key = <<>>])

CloseTop(st) ==
  LET f == Top(st)
      rest == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
  IN  AddTree(rest, <<f.kind, f.items>>)

\* The state after a call: an illegal call changes nothing.
After(st, c) ==
  IF ~Legal(st, c) THEN st
  ELSE CASE c[1] \in {"wv", "wf", "bld"} -> AddTree(st, c[2])
         [] c[1] = "wvs" -> SetTop(st, [Top(st) EXCEPT !.items = @ \o c[2]])
         [] c[1] = "wk" -> SetTop(st, [Top(st) EXCEPT !.key = <<c[2]>>])
         [] c[1] = "ba" -> [st EXCEPT !.stack = Append(@, NewFrame("arr"))]
         [] c[1] = "bd" -> [st EXCEPT !.stack = Append(@, NewFrame("dict"))]
         [] c[1] \in {"ea", "ed"} -> CloseTop(st)

\* Finishing closes every open collection, dropping a key which has no value.
RECURSIVE Finished(_)
Finished(st) ==
  IF NoneOpen(st) THEN st.root
  ELSE Finished(CloseTop(SetTop(st, [Top(st) EXCEPT !.key = <<>>])))

(***************************************************************************)
(* Some dict of the tree has two entries with the same key.                *)
(***************************************************************************)
RECURSIVE HasDupKeys(_)
HasDupKeys(t) ==
  IF t[1] = "arr" THEN \E i \in DOMAIN t[2] : HasDupKeys(t[2][i])
  ELSE IF t[1] = "dict"
       THEN \/ \E i \in DOMAIN t[2] : HasDupKeys(t[2][i][2])
            \/ Cardinality({t[2][i][1] : i \in DOMAIN t[2]}) # Len(t[2])
  ELSE FALSE

=============================================================================
