------------------------------ MODULE MacroLit ------------------------------
(***************************************************************************)
(* The fleece! macro: a literal, as a sequence of tokens, and what it      *)
(* means, in two ways: the calls of the encoder which it stands for, and   *)
(* the tree which it spells.                                               *)
(*                                                                         *)
(*   literal ::= { (key: item),* }  |  [ item,* ]     item ::= literal | e *)
(*                                                                         *)
(* with an optional comma at the end.  Tokens are <<"{">> <<"}">> <<"[">>  *)
(* <<"]">>, <<",">> (a comma at the end; separators are left out),         *)
(* <<"k", key>> and <<"v", tree>> (an expression and its value).           *)
(***************************************************************************)
EXTENDS FleeceEncoder

CallOf(t) ==
  CASE t[1] = "{" -> <<"bd">>
    [] t[1] = "}" -> <<"ed">>
    [] t[1] = "[" -> <<"ba">>
    [] t[1] = "]" -> <<"ea">>
    [] t[1] = "k" -> <<"wk", t[2]>>
    [] t[1] = "v" -> <<"wv", t[2]>>

\* The encoder after the literal's calls.
RECURSIVE Expanded(_, _, _)
Expanded(st, toks, i) ==
  IF i > Len(toks) THEN st
  ELSE IF toks[i][1] = "," THEN Expanded(st, toks, i + 1)
  ELSE Expanded(After(st, CallOf(toks[i])), toks, i + 1)

\* The tree spelled from position i on, and the position after it.
RECURSIVE Item(_, _), Items(_, _, _), Entries(_, _, _)
Item(toks, i) ==
  CASE toks[i][1] = "v" -> <<toks[i][2], i + 1>>
    [] toks[i][1] = "[" -> Items(toks, i + 1, <<>>)
    [] toks[i][1] = "{" -> Entries(toks, i + 1, <<>>)
Items(toks, i, items) ==
  CASE toks[i][1] = "]" -> <<<<"arr", items>>, i + 1>>
    [] toks[i][1] = "," -> Items(toks, i + 1, items)
    [] OTHER -> LET v == Item(toks, i) IN Items(toks, v[2], Append(items, v[1]))
Entries(toks, i, items) ==
  CASE toks[i][1] = "}" -> <<<<"dict", items>>, i + 1>>
    [] toks[i][1] = "," -> Entries(toks, i + 1, items)
    [] OTHER -> LET v == Item(toks, i + 1) IN Entries(toks, v[2], Append(items, <<toks[i][2], v[1]>>))

Spelled(toks) == Item(toks, 1)[1]

=============================================================================
