------------------------------ MODULE MacroMC ------------------------------
(***************************************************************************)
(* Every fleece! literal of up to Depth tokens: the calls it stands for    *)
(* write the tree it spells; and the literals for the harness, which makes *)
(* a Rust program of each.                                                 *)
(***************************************************************************)
EXTENDS MacroLit, Integers, TLC, Json

CONSTANT Depth

VARIABLES st, toks
vars == <<st, toks>>

n == Len(toks)
Tokens == {<<"{">>, <<"}">>, <<"[">>, <<"]">>, <<"k", <<100 + n>>>>, <<"v", <<"int", 0, <<n>>>>>>, <<",">>}

Ended == n > 0 /\ toks[n][1] = ","
Allowed(t) ==
  CASE t[1] = "," -> ~NoneOpen(st) /\ Top(st).items # <<>> /\ Top(st).key = <<>> /\ ~Ended
    \* fleece![] cannot be told from fleece!{}, and is the latter
    [] t[1] = "]" -> Legal(st, CallOf(t)) /\ n > 1
    [] t[1] = "}" -> Legal(st, CallOf(t))
    [] OTHER -> ~Ended /\ Legal(st, CallOf(t))

\* Not more tokens than can still be closed
Room(t) == Depth - n > Len(st.stack) + (IF t[1] \in {"{", "["} THEN 1
                                        ELSE IF t[1] \in {"}", "]"} THEN -1
                                        ELSE IF t[1] = "k" THEN 1 ELSE 0)

Init == st = EmptyEncoder /\ toks = <<>>
Next == \E t \in Tokens :
          /\ n < Depth
          /\ Allowed(t)
          /\ Room(t)
          /\ toks' = Append(toks, t)
          /\ st' = IF t[1] = "," THEN st ELSE After(st, CallOf(t))
Spec == Init /\ [][Next]_vars

\* The calls of a literal are legal and write what it spells.
MeaningInv == st.closed => /\ NoneOpen(st)
                           /\ Finished(st) = <<Spelled(toks)>>
                           /\ Expanded(EmptyEncoder, toks, 1) = st
\* Every beginning of a literal can be completed.
CompleteInv == ~st.closed => \E t \in Tokens : Allowed(t) /\ Room(t)
Inv == MeaningInv /\ CompleteInv

GenPrint == st.closed => PrintT(ToJson([i \in DOMAIN toks |-> toks[i][1]]))

=============================================================================
