------------------------------ MODULE EncoderMC ------------------------------
(***************************************************************************)
(* Every sequence of calls of the encoder, up to a length: the encoder of  *)
(* FleeceEncoder against an independent account of what a sequence of      *)
(* calls writes, and the sequences for the harness.                        *)
(*                                                                         *)
(* Values and keys are numbered by when they are written, so that a value  *)
(* in the wrong place, or the wrong one, cannot go unnoticed.              *)
(***************************************************************************)
EXTENDS FleeceEncoder, Integers, TLC, Json

CONSTANTS Depth,        \* calls
          MaxRefused    \* how many of them may be refused

VARIABLES st,
          hist,     \* the calls
          taken,    \* those which were accepted
          refused

vars == <<st, hist, taken, refused>>

n == Len(hist)
Calls ==
  { <<"wv", <<"int", 0, <<n>>>>>>, <<"wk", <<100 + n>>>>, <<"ba">>, <<"ea">>, <<"bd">>, <<"ed">>,
    <<"wf", <<"int", 1, <<n>>>>>>, <<"wf", <<"arr", <<<<"int", 0, <<n>>>>>>>>>> }

Init == st = EmptyEncoder /\ hist = <<>> /\ taken = <<>> /\ refused = 0

Next ==
  /\ n < Depth
  /\ \E c \in Calls :
       /\ Legal(st, c) \/ refused < MaxRefused
       /\ st' = After(st, c)
       /\ hist' = Append(hist, c)
       /\ IF Legal(st, c) THEN taken' = Append(taken, c) /\ UNCHANGED refused
          ELSE refused' = refused + 1 /\ UNCHANGED taken

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the accepted calls write, read as a grammar; what is missing at    *)
(* the end is closed:                                                      *)
(*   document ::= collection     collection ::= ba value* ea               *)
(*                                            | bd (wk value)* ed          *)
(* Each gives <<tree or none, the position after it>>.                     *)
(***************************************************************************)
RECURSIVE Value(_, _), ArrayFrom(_, _, _), DictFrom(_, _, _)
Value(cs, i) ==
  CASE cs[i][1] \in {"wv", "wf"} -> <<cs[i][2], i + 1>>
    [] cs[i][1] = "ba" -> ArrayFrom(cs, i + 1, <<>>)
    [] cs[i][1] = "bd" -> DictFrom(cs, i + 1, <<>>)
ArrayFrom(cs, i, items) ==
  IF i > Len(cs) THEN <<<<"arr", items>>, i>>
  ELSE IF cs[i][1] = "ea" THEN <<<<"arr", items>>, i + 1>>
  ELSE LET v == Value(cs, i) IN ArrayFrom(cs, v[2], Append(items, v[1]))
DictFrom(cs, i, items) ==
  IF i > Len(cs) THEN <<<<"dict", items>>, i>>
  ELSE IF cs[i][1] = "ed" THEN <<<<"dict", items>>, i + 1>>
  ELSE IF i = Len(cs) THEN <<<<"dict", items>>, i + 1>>   \* a key without a value
  ELSE LET v == Value(cs, i + 1) IN DictFrom(cs, v[2], Append(items, <<cs[i][2], v[1]>>))

Written == IF taken = <<>> THEN <<>>
           ELSE LET v == Value(taken, 1) IN IF v[2] <= Len(taken) THEN <<"more than one document">> ELSE <<v[1]>>

GrammarInv == Finished(st) = Written
\* a refused call leaves no trace
RECURSIVE Replayed(_, _)
Replayed(s, i) == IF i > Len(taken) THEN s ELSE Replayed(After(s, taken[i]), i + 1)
RefusedInv == st = Replayed(EmptyEncoder, 1)
\* something can be done until the document is complete, and nothing afterwards
ProgressInv == (\E c \in Calls : Legal(st, c)) = ~(st.closed /\ NoneOpen(st))
\* a value can be written just where a collection can, but for the top level
PlacesInv == /\ AcceptsValue(st) => AcceptsColl(st) /\ ~AcceptsKey(st)
             /\ AcceptsColl(st) /\ ~AcceptsValue(st) => NoneOpen(st) /\ st.root = <<>>
             /\ st.closed = (st.root # <<>>)

Inv == GrammarInv /\ RefusedInv /\ ProgressInv /\ PlacesInv

Short(c) == IF c[1] = "wf" /\ IsCollTree(c[2]) THEN "wfc" ELSE c[1]
GenPrint == n = Depth => PrintT(ToJson([i \in DOMAIN hist |-> Short(hist[i])]))

=============================================================================
