--------------------------- MODULE Abbreviations ---------------------------
EXTENDS Integers, Sequences, TLC

(***************************************************************************)
(* Abbreviated bytes: <<-1, <<n, bytes>>, ...>>, the bytes repeated n      *)
(* times (n is 1, or there is one byte).                                   *)
(***************************************************************************)
RECURSIVE Joined(_, _)
Joined(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET n == b[i][1]
           x == b[i][2]
       IN  (IF n = 1 THEN x ELSE TLCEval([k \in 1..n |-> x[1]])) \o Joined(b, i + 1)
XB(b) == IF b # <<>> /\ b[1] = -1 THEN Joined(b, 2) ELSE b
RECURSIVE XT(_)
XT(t) ==
  CASE t[1] \in {"str", "data"} -> <<t[1], XB(t[2])>>
    [] t[1] = "arr" -> <<"arr", TLCEval([i \in DOMAIN t[2] |-> XT(t[2][i])])>>
    [] t[1] = "dict" -> <<"dict", TLCEval([i \in DOMAIN t[2] |-> <<t[2][i][1], XT(t[2][i][2])>>])>>
    [] OTHER -> t
=============================================================================
