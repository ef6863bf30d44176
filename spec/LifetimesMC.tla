----------------------------- MODULE LifetimesMC -----------------------------
(***************************************************************************)
(* All short histories of handles, for the harness.  Documents: 1 is an    *)
(* array, 2 a dict, 3 no valid document, 4 a dict with shared keys.        *)
(***************************************************************************)
EXTENDS Lifetimes, TLC, Json

CONSTANTS Depth, MaxHandles, MaxBlocks

VARIABLES hs, removed, blocks, hist

vars == <<hs, removed, blocks, hist>>

RootKind(doc) == CASE doc = 1 -> "A" [] doc = 3 -> "" [] OTHER -> "D"

Init == hs = <<>> /\ removed = {} /\ blocks = 0 /\ hist = <<>>

Log(c) == hist' = Append(hist, c)
Living == {h \in DOMAIN hs : hs[h].kind # ""}
Room == Cardinality(Living) < MaxHandles

\* creation: of a scope, or a value, array or dict over a copy of the bytes
Make(kind, doc) ==
  /\ Room /\ blocks < MaxBlocks
  /\ Log(<<"mk", kind, doc>>)
  /\ LET ok == kind = "S" \/ (kind = "V" /\ RootKind(doc) # "") \/ kind = RootKind(doc)
     IN  /\ hs' = (IF ok THEN Add(hs, kind, blocks + 1, doc, IF kind = "S" THEN NewScope(hs) ELSE 0) ELSE hs)
         /\ blocks' = IF ok THEN blocks + 1 ELSE blocks
  /\ UNCHANGED removed
Clone(h) == Room /\ hs' = Append(hs, hs[h]) /\ Log(<<"clone", h>>) /\ UNCHANGED <<removed, blocks>>
Drop(h) == hs' = Gone(hs, h) /\ Log(<<"drop", h>>) /\ UNCHANGED <<removed, blocks>>
Root(h) == /\ hs[h].kind = "S" /\ Room
           /\ hs' = (IF RootKind(hs[h].doc) = "" THEN hs ELSE Add(hs, "V", hs[h].blk, hs[h].doc, 0))
           /\ Log(<<"root", h>>) /\ UNCHANGED <<removed, blocks>>
Data(h) == hs[h].kind = "S" /\ Room /\ hs' = Add(hs, "B", hs[h].blk, hs[h].doc, 0) /\ Log(<<"data", h>>) /\ UNCHANGED <<removed, blocks>>
Convert(h, k) == /\ hs[h].kind = "V"
                 /\ hs' = (IF RootKind(hs[h].doc) = k THEN Add(Gone(hs, h), k, hs[h].blk, hs[h].doc, 0) ELSE Gone(hs, h))
                 /\ Log(<<"to", h, k>>) /\ UNCHANGED <<removed, blocks>>
Find(h) == LET f == Findable(hs, removed, hs[h].blk)
           IN  /\ Room
               /\ hs' = (IF f = {} THEN hs ELSE Add(hs, "S", hs[h].blk, hs[h].doc, CHOOSE s \in f : TRUE))
               /\ Log(<<"find", h>>) /\ UNCHANGED <<removed, blocks>>
Rm(h) == hs[h].kind = "S" /\ removed' = removed \cup {hs[h].scope} /\ Log(<<"rm", h>>) /\ UNCHANGED <<hs, blocks>>
Again(h) == /\ hs[h].kind = "B" /\ Room /\ ~HasScope(hs, hs[h].blk)
            /\ hs' = Add(hs, "S", hs[h].blk, hs[h].doc, NewScope(hs)) /\ Log(<<"again", h>>) /\ UNCHANGED <<removed, blocks>>
Send(h) == hist # <<>> /\ hist[Len(hist)][1] # "send" /\ Log(<<"send", h>>) /\ UNCHANGED <<hs, removed, blocks>>

Next ==
  /\ Len(hist) < Depth
  /\ \/ \E k \in {"S", "V", "A", "D"}, d \in 1..4 : Make(k, d) /\ (k = "A" => d = 1) /\ (k = "D" => d = 2) /\ (k = "V" => d # 4)
     \/ \E h \in Living : \/ Clone(h) \/ Drop(h) \/ Root(h) \/ Data(h) \/ Convert(h, "A") \/ Convert(h, "D")
                          \/ Find(h) \/ Rm(h) \/ Again(h) \/ Send(h)

Spec == Init /\ [][Next]_vars

\* what can be found is alive, and there is at most one scope to be found over a block
Inv == \A h \in Living : Cardinality(Findable(hs, removed, hs[h].blk)) <= 1

GenPrint == (Len(hist) = Depth /\ Len(hs) > 0) => PrintT(ToJson(hist))

=============================================================================
