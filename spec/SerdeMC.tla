------------------------------ MODULE SerdeMC ------------------------------
(***************************************************************************)
(* Serde for all small types: every value of every type is checked for the *)
(* round trip, and printed for the harness; and so is every type together  *)
(* with every tree which some value of some type becomes.                  *)
(***************************************************************************)
EXTENDS Serde, Json

CONSTANTS Levels,     \* nesting of types: 1 or 2
          Mode        \* "values" or "trees"

VARIABLES ty, x

vars == <<ty, x>>

A == <<97>>
BC == <<98, 99>>
Int1(n) == FromSmall(n)
One == <<"f", 4>>

Scalars == {<<"bool">>, <<"i", 1>>, <<"u", 2>>, <<"i", 8>>, <<"f", 4>>, <<"f", 8>>, <<"char">>, <<"string">>, <<"bytes">>, <<"unit">>, <<"ustruct">>}
Few == {<<"bool">>, <<"u", 2>>, <<"string">>}

Over(S) ==
  UNION {{<<"newtype", t>>, <<"opt", t>>, <<"seq", t>>, <<"tuple", <<t>>>>, <<"tuple", <<t, <<"u", 2>>>>>>, <<"tstruct", <<<<"string">>, t>>>>,
          <<"struct", <<<<A, t>>>>>>, <<"struct", <<<<BC, t>>, <<A, <<"opt", <<"u", 2>>>>>>>>>>,
          <<"map", <<"string">>, t>>, <<"map", <<"char">>, t>>,
          <<"enum", <<<<A, "unit">>, <<BC, "newtype", t>>>>>>,
          <<"enum", <<<<A, "tuple", <<t>>>>, <<BC, "struct", <<<<A, t>>>>>>>>>>} : t \in S}
Base == {<<"tuple", <<>>>>, <<"struct", <<>>>>, <<"tstruct", <<>>>>, <<"map", <<"i", 1>>, <<"bool">>>>, <<"map", <<"opt", <<"string">>>>, <<"bool">>>>,
         <<"map", <<"newtype", <<"char">>>>, <<"u", 2>>>>, <<"enum", <<<<A, "tuple", <<>>>>, <<BC, "struct", <<>>>>>>>>, <<"seq", <<"i", 16>>>>,
         <<"map", <<"enum", <<<<A, "unit">>>>>>, <<"unit">>>>, <<"map", <<"tuple", <<>>>>, <<"unit">>>>, <<"u", 16>>, <<"seq", <<"any">>>>}
One1 == Scalars \cup Over(Scalars) \cup Base
Types == IF Levels = 1 THEN One1 ELSE One1 \cup Over(Over(Few))

RECURSIVE Values(_)
\* at most two values of a type
Two(t) == LET V == Values(t)
              a == CHOOSE v \in V : TRUE
          IN  IF V = {a} THEN {a} ELSE {a, CHOOSE v \in V : v # a}
FieldValues(ts) == CASE Len(ts) = 0 -> {<<>>}
                     [] Len(ts) = 1 -> {<<v>> : v \in Values(ts[1])}
                     [] Len(ts) = 2 -> {<<v, w>> : v \in Values(ts[1]), w \in Two(ts[2])}
Types2(fs) == [i \in DOMAIN fs |-> fs[i][2]]
Values(t) ==
  CASE t[1] = "bool" -> {<<"bool", TRUE>>, <<"bool", FALSE>>}
    [] t[1] = "i" -> {Int1(-128), Int1(5)} \cup (IF t[2] = 8 THEN {IntV(1, <<0, 0, 0, 0, 0, 0, 0, 128>>), IntV(0, <<1, 0, 0, 0, 0, 128>>)} ELSE {})
    [] t[1] = "u" -> {Int1(0), Int1(65535), Int1(2047)}
    [] t[1] = "f" -> {<<"flt", <<0, 0, 0, 0, 0, 0, 248, 63>>>>, <<"nan">>} \cup (IF t[2] = 8 THEN {<<"flt", <<1, 0, 0, 0, 0, 0, 240, 63>>>>} ELSE {})
    [] t[1] = "char" -> {<<"str", <<97>>>>, <<"str", <<195, 169>>>>}
    [] t[1] = "string" -> {<<"str", <<>>>>, <<"str", <<97>>>>, <<"str", <<98, 99>>>>}
    [] t[1] = "bytes" -> {<<"data", <<>>>>, <<"data", <<97, 255>>>>}
    [] t[1] \in {"unit", "ustruct"} -> {<<"unit">>}
    [] t[1] = "any" -> {<<"null">>, <<"undef">>, <<"arr", <<Int1(5), <<"arr", <<>>>>>>>>, <<"dict", <<<<A, <<"null">>>>>>>>}
    [] t[1] = "newtype" -> Values(t[2])
    [] t[1] = "opt" -> {<<"none">>} \cup {<<"some", v>> : v \in Values(t[2])}
    [] t[1] = "seq" -> {<<"arr", <<>>>>} \cup {<<"arr", <<v>>>> : v \in Values(t[2])} \cup {<<"arr", <<v, w>>>> : v, w \in Two(t[2])}
    [] t[1] \in {"tuple", "tstruct"} -> {<<"arr", f>> : f \in FieldValues(t[2])}
    [] t[1] = "struct" -> {<<"arr", f>> : f \in FieldValues(Types2(t[2]))}
    [] t[1] = "map" -> {<<"map", <<>>>>} \cup {<<"map", <<<<k, v>>>>>> : k \in Values(t[2]), v \in Values(t[3])}
                       \cup {<<"map", <<<<k, v>>, <<m, w>>>>>> : k, m \in Two(t[2]), v, w \in Two(t[3])}
    [] t[1] = "enum" -> UNION {LET va == t[2][i]
                               IN  CASE va[2] = "unit" -> {<<"var", i, <<"unit">>>>}
                                     [] va[2] = "newtype" -> {<<"var", i, v>> : v \in Values(va[3])}
                                     [] va[2] = "tuple" -> {<<"var", i, <<"arr", f>>>> : f \in FieldValues(va[3])}
                                     [] va[2] = "struct" -> {<<"var", i, <<"arr", f>>>> : f \in FieldValues(Types2(va[3]))} : i \in DOMAIN t[2]}

\* maps have no equal keys
RECURSIVE Plain(_, _)
Plain(t, v) ==
  CASE t[1] = "map" -> (\A i, j \in DOMAIN v[2] : v[2][i][1] = v[2][j][1] => i = j) /\ \A i \in DOMAIN v[2] : Plain(t[3], v[2][i][2])
    [] t[1] = "newtype" -> Plain(t[2], v)
    [] t[1] = "opt" -> (v[1] = "none" \/ Plain(t[2], v[2]))
    [] t[1] = "seq" -> (\A i \in DOMAIN v[2] : Plain(t[2], v[2][i]))
    [] t[1] \in {"tuple", "tstruct"} -> (\A i \in DOMAIN t[2] : Plain(t[2][i], v[2][i]))
    [] t[1] = "struct" -> (\A i \in DOMAIN t[2] : Plain(t[2][i][2], v[2][i]))
    [] t[1] = "enum" -> (LET va == t[2][v[2]]
                         IN  CASE va[2] = "unit" -> TRUE
                               [] va[2] = "newtype" -> Plain(va[3], v[3])
                               [] va[2] = "tuple" -> (\A i \in DOMAIN va[3] : Plain(va[3][i], v[3][2][i]))
                               [] va[2] = "struct" -> (\A i \in DOMAIN va[3] : Plain(va[3][i][2], v[3][2][i])))
    [] OTHER -> TRUE
Good(t) == {v \in Values(t) : Plain(t, v)}

\* trees of collections
Odd == {<<"arr", <<<<"str", A>>, <<"null">>, <<"null">>>>>>, <<"arr", <<<<"str", <<120>>>>>>>>, <<"arr", <<<<"data", A>>>>>>,
        <<"arr", <<<<"str", A>>, <<"arr", <<<<"null">>, <<"undef">>>>>>>>>>, <<"dict", <<<<A, <<"undef">>>>, <<BC, <<"null">>>>, <<<<120>>, <<"arr", <<>>>>>>>>>>,
        <<"arr", <<Int1(0), Int1(-1), Int1(255), Int1(256), Int1(65536)>>>>, <<"arr", <<<<"flt", <<0, 0, 0, 0, 0, 0, 0, 64>>>>, Int1(2)>>>>,
        <<"arr", <<IntV(0, <<255, 255, 255, 255, 255, 255, 255, 255>>)>>>>, <<"arr", <<<<"bool", TRUE>>, <<"data", <<195, 169>>>>>>>>}
Trees == TLCEval(Odd \cup {t \in UNION {{Ser(u, v) : v \in Good(u)} : u \in One1 \ Base} : t[1] \in {"arr", "dict"}})

Init == ty \in Types /\ x = <<>>
Next == /\ x = <<>>
        /\ UNCHANGED ty
        /\ IF Mode = "values" THEN x' \in Good(ty) ELSE x' \in Trees
Spec == Init /\ [][Next]_vars

\* What is serialized is read back, and as nothing else.
RoundTrip == (Mode = "values" /\ x # <<>> /\ SerErrors(ty, x) = {}) =>
  LET t == Ser(ty, x)
  IN  /\ Must(ty, t)
      /\ Faithful(ty) => Agrees(ty, t, x)
      /\ Faithful(ty) => \A v \in Good(ty) : Agrees(ty, t, v) => NormV(ty, v) = NormV(ty, x)

\* What must be read can be read, as exactly one of the small values if as any.
Readable == (Mode = "trees" /\ x # <<>> /\ Faithful(ty)) =>
  Cardinality({NormV(ty, v) : v \in {w \in Good(ty) : Agrees(ty, x, w)}}) <= 1

GenPrint == x # <<>> => PrintT(ToJson(<<IF Mode = "values" THEN "v" ELSE "t", ty, x>>))

=============================================================================
