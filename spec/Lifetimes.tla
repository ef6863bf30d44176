------------------------------ MODULE Lifetimes ------------------------------
(***************************************************************************)
(* Handles to documents and the memory behind them.                        *)
(*                                                                         *)
(* hs is a sequence of handles, in order of creation:                      *)
(*   kind   "S" a scope, "V" a value, "A" an array, "D" a dict, "B" bytes, *)
(*          "" a handle which is gone                                      *)
(*   blk    the block of memory which holds what the handle refers to      *)
(*   doc    the number of the document                                     *)
(*   scope  of "S": the number of the scope                                *)
(* A block is allocated exactly as long as some handle refers to it.       *)
(* removed is the set of the scopes which were removed from the registry.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

IsLive(hs, h) == h \in DOMAIN hs /\ hs[h].kind # ""
Needed(hs, blk) == \E h \in DOMAIN hs : hs[h].kind # "" /\ hs[h].blk = blk

\* The living scopes over a block which can be found by address
Findable(hs, removed, blk) ==
  {hs[h].scope : h \in {k \in DOMAIN hs : hs[k].kind = "S" /\ hs[k].blk = blk /\ hs[k].scope \notin removed}}
\* A scope over the block is alive, found or not
HasScope(hs, blk) == \E h \in DOMAIN hs : hs[h].kind = "S" /\ hs[h].blk = blk

Add(hs, kind, blk, doc, scope) == Append(hs, [kind |-> kind, blk |-> blk, doc |-> doc, scope |-> scope])
Gone(hs, h) == [hs EXCEPT ![h].kind = ""]
RECURSIVE GoneAll(_, _)
GoneAll(hs, s) == IF s = <<>> THEN hs ELSE GoneAll(Gone(hs, Head(s)), Tail(s))
NewScope(hs) == Len(hs) + 1

=============================================================================
