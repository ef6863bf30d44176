------------------------------ MODULE Mutable ------------------------------
(***************************************************************************)
(* Mutable collections: lists and maps from strings, nested in each other. *)
(*                                                                         *)
(* A node is a scalar tree (see FleeceFormat), <<"ma", list of nodes>>, or *)
(* <<"md", function from strings to nodes>>.  Handles are independent of   *)
(* each other and of the documents they were copied from: every handle is  *)
(* a tree of its own.                                                      *)
(*                                                                         *)
(* A path is a sequence of steps <<"i", index, want>> and <<"k", key,      *)
(* want>>, where want is "a" or "d", the kind of collection asked for.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* The mutable copy of a tree
RECURSIVE Copy(_)
Copy(t) ==
  IF t[1] = "arr" THEN <<"ma", TLCEval([i \in DOMAIN t[2] |-> Copy(t[2][i])])>>
  ELSE IF t[1] = "dict"
  THEN LET at(k) == CHOOSE i \in DOMAIN t[2] : t[2][i][1] = k
       IN  <<"md", TLCEval([k \in {t[2][i][1] : i \in DOMAIN t[2]} |-> Copy(t[2][at(k)][2])])>>
  ELSE t

EmptyOf(want) == IF want = "d" THEN <<"md", <<>>>> ELSE <<"ma", <<>>>>
IsOf(n, want) == n[1] = (IF want = "d" THEN "md" ELSE "ma")
IsNode(n) == n[1] \in {"ma", "md"}

\* <<the child which a step leads to>>, or <<>>
Child(n, s) ==
  IF s[1] = "i"
  THEN IF n[1] = "ma" /\ s[2] < Len(n[2]) THEN <<n[2][s[2] + 1]>> ELSE <<>>
  ELSE IF n[1] = "md" /\ s[2] \in DOMAIN n[2] THEN <<n[2][s[2]]>> ELSE <<>>

\* <<the node which a path leads to>>, or <<>> if some step finds no collection of the kind asked for
RECURSIVE Reach(_, _)
Reach(n, path) ==
  IF path = <<>> THEN <<n>>
  ELSE LET c == Child(n, Head(path))
       IN  IF c = <<>> THEN <<>>
           ELSE IF IsOf(c[1], Head(path)[3]) THEN Reach(c[1], Tail(path)) ELSE <<>>

RECURSIVE Replace(_, _, _)
Replace(n, path, new) ==
  IF path = <<>> THEN new
  ELSE LET s == Head(path)
           c == Replace(Child(n, s)[1], Tail(path), new)
       IN  IF s[1] = "i" THEN <<"ma", [n[2] EXCEPT ![s[2] + 1] = c]>>
           ELSE <<"md", (s[2] :> c) @@ n[2]>>

\* Operations on a node, with the operand where there is one
PushTo(n, v) == <<"ma", Append(n[2], v)>>
InRange(n, i) == i < Len(n[2])
SetAt(n, i, v) == <<"ma", [n[2] EXCEPT ![i + 1] = v]>>
RemoveAt(n, i) == IF InRange(n, i) THEN <<"ma", SubSeq(n[2], 1, i) \o SubSeq(n[2], i + 2, Len(n[2]))>> ELSE n
InsertAt(n, k, v) == <<"md", (k :> v) @@ n[2]>>
RemoveKey(n, k) == <<"md", [x \in DOMAIN n[2] \ {k} |-> n[2][x]]>>

=============================================================================
