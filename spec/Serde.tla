------------------------------- MODULE Serde -------------------------------
(***************************************************************************)
(* The serde data model: which document a typed value becomes, and which   *)
(* typed values a document may be read as.                                 *)
(*                                                                         *)
(* Types:                                                                  *)
(*   <<"bool">> <<"i", n>> <<"u", n>> (n bytes) <<"f", 4 or 8>> <<"char">> *)
(*   <<"string">> <<"bytes">> <<"unit">> <<"ustruct">> <<"newtype", T>>    *)
(*   <<"opt", T>> <<"seq", T>> <<"tuple", <<T..>>>> <<"tstruct", <<T..>>>> *)
(*   <<"struct", <<<<name, T>>..>>>> <<"map", K, T>>                       *)
(*   <<"enum", <<<<name, "unit">>, <<name, "newtype", T>>,                 *)
(*               <<name, "tuple", <<T..>>>>,                               *)
(*               <<name, "struct", <<<<name, T>>..>>>>..>>>>               *)
(*   <<"any">> whatever there is    <<"ignored">>                          *)
(* Values: as in documents for scalars, a char being a string;             *)
(*   <<"unit">> (unit, unit struct, ignored)  <<"none">> <<"some", v>>     *)
(*   <<"arr", <<v..>>>> sequences, tuples, and structs by field            *)
(*   <<"map", <<<<k, v>>..>>>>  <<"var", i, v>> (variant i from 1)         *)
(*   a newtype is its content, and any a tree.                             *)
(* Names are byte sequences.                                               *)
(***************************************************************************)
EXTENDS Numbers, FiniteSets, TLC

RECURSIVE Ser(_, _), SerErrors(_, _), Agrees(_, _, _), Must(_, _), Nullable(_), Faithful(_), Decodable(_), NormV(_, _), KeyErrors(_, _)

(***************************************************************************)
(* Serialization                                                           *)
(***************************************************************************)
Fields(fs, v) == <<"dict", TLCEval([i \in DOMAIN fs |-> <<fs[i][1], Ser(fs[i][2], v[2][i])>>])>>
Elems(ts, v) == <<"arr", TLCEval([i \in DOMAIN ts |-> Ser(ts[i], v[2][i])])>>

\* what a key is, as a string
RECURSIVE KeyString(_)
KeyString(k) == IF k[1] = "some" THEN KeyString(k[2]) ELSE k[2]

Ser(ty, v) ==
  CASE ty[1] \in {"unit"} -> <<"undef">>
    [] ty[1] = "ustruct" -> <<"null">>
    [] ty[1] = "newtype" -> Ser(ty[2], v)
    [] ty[1] = "opt" -> (IF v[1] = "none" THEN <<"null">> ELSE Ser(ty[2], v[2]))
    [] ty[1] = "seq" -> <<"arr", TLCEval([i \in DOMAIN v[2] |-> Ser(ty[2], v[2][i])])>>
    [] ty[1] \in {"tuple", "tstruct"} -> Elems(ty[2], v)
    [] ty[1] = "struct" -> Fields(ty[2], v)
    [] ty[1] = "map" -> <<"dict", TLCEval([i \in DOMAIN v[2] |-> <<KeyString(v[2][i][1]), Ser(ty[3], v[2][i][2])>>])>>
    [] ty[1] = "enum" ->
         (LET va == ty[2][v[2]]
              name == <<"str", va[1]>>
          IN  CASE va[2] = "unit" -> <<"arr", <<name>>>>
                [] va[2] = "newtype" -> <<"arr", <<name, Ser(va[3], v[3])>>>>
                [] va[2] = "tuple" -> <<"arr", <<name, Elems(va[3], v[3])>>>>
                [] va[2] = "struct" -> <<"arr", <<name, Fields(va[3], v[3])>>>>)
    [] ty[1] = "f" -> (IF ty[2] = 4 THEN AsSgl(v) ELSE v)
    [] OTHER -> v

\* The kind of a key which is no string; no error for strings.
KeyErrors(K, k) ==
  CASE K[1] \in {"string", "char"} -> {}
    [] K[1] = "newtype" -> KeyErrors(K[2], k)
    [] K[1] = "opt" -> (IF k[1] = "none" THEN {"key:Option"} ELSE KeyErrors(K[2], k[2]))
    [] K[1] = "bool" -> {"key:Bool"}
    [] K[1] \in {"i", "u"} -> (IF K[2] = 16 THEN {"other"} ELSE {"key:Int"})
    [] K[1] = "f" -> {"key:Float"}
    [] K[1] = "bytes" -> {"key:Bytes"}
    [] K[1] \in {"unit", "ustruct"} -> {"key:Unit"}
    [] K[1] = "seq" -> {"key:Sequence"}
    [] K[1] \in {"tuple", "tstruct"} -> {"key:Tuple"}
    [] K[1] = "struct" -> {"key:Struct"}
    [] K[1] = "map" -> {"key:Map"}
    [] K[1] = "enum" -> {"key:Enum"}
    [] K[1] = "any" -> (CASE k[1] = "str" -> {}
                          [] k[1] = "null" -> {"key:Option"}
                          [] k[1] = "undef" -> {"key:Unit"}
                          [] k[1] = "bool" -> {"key:Bool"}
                          [] k[1] = "int" -> {"key:Int"}
                          [] k[1] \in {"flt", "sgl", "nan"} -> {"key:Float"}
                          [] k[1] = "data" -> {"key:Bytes"}
                          [] k[1] = "arr" -> {"key:Sequence"}
                          [] k[1] = "dict" -> {"key:Map"})

\* The errors which serializing v as part of something may give: any, if there are some.
SerErrors(ty, v) ==
  CASE ty[1] \in {"i", "u"} -> (IF ty[2] = 16 THEN {"other"} ELSE {})
    [] ty[1] = "newtype" -> SerErrors(ty[2], v)
    [] ty[1] = "opt" -> (IF v[1] = "none" THEN {} ELSE SerErrors(ty[2], v[2]))
    [] ty[1] = "seq" -> UNION {SerErrors(ty[2], v[2][i]) : i \in DOMAIN v[2]}
    [] ty[1] \in {"tuple", "tstruct"} -> UNION {SerErrors(ty[2][i], v[2][i]) : i \in DOMAIN ty[2]}
    [] ty[1] = "struct" -> UNION {SerErrors(ty[2][i][2], v[2][i]) : i \in DOMAIN ty[2]}
    [] ty[1] = "map" -> UNION {KeyErrors(ty[2], v[2][i][1]) \cup SerErrors(ty[3], v[2][i][2]) : i \in DOMAIN v[2]}
    [] ty[1] = "enum" ->
         (LET va == ty[2][v[2]]
          IN  CASE va[2] = "unit" -> {}
                [] va[2] = "newtype" -> SerErrors(va[3], v[3])
                [] va[2] = "tuple" -> UNION {SerErrors(va[3][i], v[3][2][i]) : i \in DOMAIN va[3]}
                [] va[2] = "struct" -> UNION {SerErrors(va[3][i][2], v[3][2][i]) : i \in DOMAIN va[3]})
    [] OTHER -> {}

RECURSIVE IsColl0(_, _)
\* The top level is a collection, an enum or a struct.
IsColl0(ty, v) ==
  CASE ty[1] = "newtype" -> IsColl0(ty[2], v)
    [] ty[1] = "opt" -> v[1] = "some" /\ IsColl0(ty[2], v[2])
    [] ty[1] \in {"seq", "tuple", "tstruct", "struct", "map", "enum"} -> TRUE
    [] ty[1] = "any" -> v[1] \in {"arr", "dict"}
    [] OTHER -> FALSE

\* {} if a value must be serialized, and otherwise the errors with which it may be refused.
Refusals(ty, v) == IF IsColl0(ty, v) THEN SerErrors(ty, v)
                   ELSE {"not-collection"} \cup SerErrors(ty, v)

(***************************************************************************)
(* Deserialization                                                         *)
(***************************************************************************)
\* A dict key which only missing shared keys could decode
NoKey(k) == Len(k) = 2 /\ k[1] = 1000

Decodable(t) ==
  CASE t[1] = "arr" -> \A i \in DOMAIN t[2] : Decodable(t[2][i])
    [] t[1] = "dict" -> \A i \in DOMAIN t[2] : ~NoKey(t[2][i][1]) /\ Decodable(t[2][i][2])
    [] OTHER -> TRUE

Distinct(t) == \A i, j \in DOMAIN t[2] : t[2][i][1] = t[2][j][1] => i = j
Has(t, k) == \E i \in DOMAIN t[2] : t[2][i][1] = k
Entry(t, k) == t[2][CHOOSE i \in DOMAIN t[2] : t[2][i][1] = k][2]

FitsType(ty, t) == t[1] = "int" /\ IF ty[1] = "i" THEN FitsSigned(t, ty[2]) ELSE FitsUnsigned(t, ty[2])
Chars(b) == Cardinality({i \in DOMAIN b : b[i] < 128 \/ b[i] >= 192})
\* the numeric value of a float is an integer
Integral(t) == t[1] = "flt" /\ F64IsFinite(t[2]) /\ UExp(t[2]) < 64 /\ IntExactF64(TruncF64(t[2]))
               /\ (IntToF64(TruncF64(t[2]))[2] = t[2] \/ IsZeroF(t))
\* a float of this size near t
Near(n, t, v) ==
  IF t[1] = "nan" THEN v = t
  ELSE LET f == IF t[1] = "int" THEN IntToF64(t) ELSE t
       IN  IF n = 8 \/ ExactF32Normal(f[2]) THEN v = f
           ELSE v[1] = "flt" /\ F64Sign(v[2]) = F64Sign(f[2])
                /\ (UExp(v[2]) - UExp(f[2]) \in {0, 1} \/ (UExp(f[2]) < -126 /\ UExp(v[2]) <= -126) \/ (UExp(f[2]) >= 127 /\ UExp(v[2]) = 1024))

StructMust(fs, t) ==
  /\ t[1] = "dict" /\ Decodable(t) /\ Distinct(t)
  /\ \A i \in DOMAIN fs : Has(t, fs[i][1]) /\ Must(fs[i][2], Entry(t, fs[i][1]))
TupleMust(ts, t) == t[1] = "arr" /\ Len(t[2]) = Len(ts) /\ \A i \in DOMAIN ts : Must(ts[i], t[2][i])

\* t represents a value of the type, and reading it must succeed.
Must(ty, t) ==
  CASE ty[1] = "bool" -> t[1] = "bool"
    [] ty[1] \in {"i", "u"} -> FitsType(ty, t)
    [] ty[1] = "f" -> t[1] \in {"flt", "sgl", "nan"}
    [] ty[1] = "char" -> t[1] = "str" /\ Chars(t[2]) = 1
    [] ty[1] = "string" -> t[1] = "str"
    [] ty[1] = "bytes" -> t[1] = "data"
    [] ty[1] = "unit" -> t[1] = "undef"
    [] ty[1] = "ustruct" -> t[1] = "null"
    [] ty[1] = "newtype" -> Must(ty[2], t)
    [] ty[1] = "opt" -> t[1] = "null" \/ Must(ty[2], t)
    [] ty[1] = "seq" -> t[1] = "arr" /\ \A i \in DOMAIN t[2] : Must(ty[2], t[2][i])
    [] ty[1] \in {"tuple", "tstruct"} -> TupleMust(ty[2], t)
    [] ty[1] = "struct" -> StructMust(ty[2], t)
    [] ty[1] = "map" -> t[1] = "dict" /\ \A i \in DOMAIN t[2] :
                          ~NoKey(t[2][i][1]) /\ Must(ty[2], <<"str", t[2][i][1]>>) /\ Must(ty[3], t[2][i][2])
    [] ty[1] = "enum" ->
         (/\ t[1] = "arr" /\ Len(t[2]) >= 1 /\ t[2][1][1] = "str"
          /\ \E i \in DOMAIN ty[2] :
               LET va == ty[2][i]
               IN  /\ va[1] = t[2][1][2]
                   /\ Len(t[2]) = (IF va[2] = "unit" THEN 1 ELSE 2)
                   /\ CASE va[2] = "unit" -> TRUE
                        [] va[2] = "newtype" -> Must(va[3], t[2][2])
                        [] va[2] = "tuple" -> TupleMust(va[3], t[2][2])
                        [] va[2] = "struct" -> StructMust(va[3], t[2][2]))
    [] ty[1] \in {"any", "ignored"} -> Decodable(t)

StructAgrees(fs, t, v) ==
  /\ t[1] = "dict" /\ \A i \in DOMAIN t[2] : ~NoKey(t[2][i][1])
  /\ v[1] = "arr" /\ Len(v[2]) = Len(fs)
  /\ \A i \in DOMAIN fs :
       \/ \E j \in DOMAIN t[2] : t[2][j][1] = fs[i][1] /\ Agrees(fs[i][2], t[2][j][2], v[2][i])
       \/ ~Has(t, fs[i][1]) /\ fs[i][2][1] = "opt" /\ v[2][i] = <<"none">>
TupleAgrees(ts, t, v) ==
  t[1] = "arr" /\ v[1] = "arr" /\ Len(v[2]) = Len(ts) /\ Len(t[2]) >= Len(ts)
  /\ \A i \in DOMAIN ts : Agrees(ts[i], t[2][i], v[2][i])

RECURSIVE SameTree(_, _)
SameTree(a, b) ==
  IF Dbl(a)[1] # b[1] THEN FALSE
  ELSE IF a[1] = "arr" THEN Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : SameTree(a[2][i], b[2][i])
  ELSE IF a[1] = "dict" THEN /\ Len(a[2]) = Len(b[2])
                             /\ \A i \in DOMAIN a[2] : \E j \in DOMAIN b[2] : a[2][i][1] = b[2][j][1] /\ SameTree(a[2][i][2], b[2][j][2])
  ELSE Dbl(a) = b

\* v is a reading of t as a value of the type.
Agrees(ty, t, v) ==
  CASE ty[1] = "bool" -> t[1] = "bool" /\ v = t
    [] ty[1] \in {"i", "u"} -> (IF t[1] = "int" THEN v = t /\ FitsType(ty, t) ELSE Integral(Dbl(t)) /\ v = TruncF64(t[2]))
    [] ty[1] = "f" -> t[1] \in {"flt", "sgl", "nan", "int"} /\ Near(ty[2], Dbl(t), v)
    [] ty[1] = "char" -> t[1] = "str" /\ Chars(t[2]) = 1 /\ v = t
    [] ty[1] = "string" -> t[1] \in {"str", "data"} /\ v = <<"str", t[2]>>
    [] ty[1] = "bytes" -> t[1] \in {"str", "data"} /\ v = <<"data", t[2]>>
    [] ty[1] \in {"unit", "ustruct"} -> t[1] \in {"undef", "null"} /\ v = <<"unit">>
    [] ty[1] = "newtype" -> Agrees(ty[2], t, v)
    [] ty[1] = "opt" -> (IF t[1] = "null" THEN v = <<"none">> ELSE v[1] = "some" /\ Agrees(ty[2], t, v[2]))
    [] ty[1] = "seq" -> t[1] = "arr" /\ v[1] = "arr" /\ Len(v[2]) = Len(t[2]) /\ \A i \in DOMAIN t[2] : Agrees(ty[2], t[2][i], v[2][i])
    [] ty[1] \in {"tuple", "tstruct"} -> TupleAgrees(ty[2], t, v)
    [] ty[1] = "struct" -> StructAgrees(ty[2], t, v)
    [] ty[1] = "map" ->
         (/\ t[1] = "dict" /\ v[1] = "map" /\ Len(v[2]) = Len(t[2])
          /\ \A i \in DOMAIN t[2] : /\ ~NoKey(t[2][i][1])
                                    /\ \E j \in DOMAIN v[2] : Agrees(ty[2], <<"str", t[2][i][1]>>, v[2][j][1]) /\ Agrees(ty[3], t[2][i][2], v[2][j][2]))
    [] ty[1] = "enum" ->
         (/\ t[1] = "arr" /\ Len(t[2]) >= 1 /\ t[2][1][1] \in {"str", "data"}
          /\ LET va == ty[2][v[2]]
                 x == t[2][2]
             IN  /\ va[1] = t[2][1][2]
                 /\ CASE va[2] = "unit" -> Len(t[2]) = 1
                      [] va[2] = "newtype" -> Len(t[2]) >= 2 /\ Agrees(va[3], x, v[3])
                      [] va[2] = "tuple" -> Len(t[2]) >= 2 /\ x[1] = "arr" /\ Len(x[2]) = Len(va[3]) /\ TupleAgrees(va[3], x, v[3])
                      [] va[2] = "struct" -> Len(t[2]) >= 2 /\ StructAgrees(va[3], x, v[3]))
    [] ty[1] = "any" -> SameTree(t, v)
    [] ty[1] = "ignored" -> v = <<"unit">>

(***************************************************************************)
(* What survives: null is no value of an option's content.                 *)
(***************************************************************************)
Nullable(ty) == \/ ty[1] \in {"opt", "ustruct", "any"}
                \/ ty[1] = "newtype" /\ Nullable(ty[2])
\* serialized values of the type are read as equal values
Faithful(ty) ==
  CASE ty[1] = "newtype" -> Faithful(ty[2])
    [] ty[1] = "opt" -> ~Nullable(ty[2]) /\ Faithful(ty[2])
    [] ty[1] = "seq" -> Faithful(ty[2])
    [] ty[1] \in {"tuple", "tstruct"} -> \A i \in DOMAIN ty[2] : Faithful(ty[2][i])
    [] ty[1] = "struct" -> \A i \in DOMAIN ty[2] : Faithful(ty[2][i][2])
    [] ty[1] = "map" -> Faithful(ty[2]) /\ Faithful(ty[3])
    [] ty[1] = "enum" -> (\A i \in DOMAIN ty[2] :
         LET va == ty[2][i]
         IN  CASE va[2] = "unit" -> TRUE
               [] va[2] = "newtype" -> Faithful(va[3])
               [] va[2] = "tuple" -> (\A k \in DOMAIN va[3] : Faithful(va[3][k]))
               [] va[2] = "struct" -> (\A k \in DOMAIN va[3] : Faithful(va[3][k][2])))
    [] ty[1] = "ignored" -> FALSE
    [] OTHER -> TRUE

RECURSIVE NormT(_)
NormT(t) ==
  IF t[1] = "arr" THEN <<"arr", TLCEval([i \in DOMAIN t[2] |-> NormT(t[2][i])])>>
  ELSE IF t[1] = "dict" THEN <<"dict", {<<t[2][i][1], NormT(t[2][i][2])>> : i \in DOMAIN t[2]}, Len(t[2])>>
  ELSE Dbl(t)

\* Values up to the order of map entries
NormV(ty, v) ==
  CASE ty[1] = "newtype" -> NormV(ty[2], v)
    [] ty[1] = "opt" -> (IF v[1] = "none" THEN v ELSE <<"some", NormV(ty[2], v[2])>>)
    [] ty[1] = "seq" -> <<"arr", TLCEval([i \in DOMAIN v[2] |-> NormV(ty[2], v[2][i])])>>
    [] ty[1] \in {"tuple", "tstruct"} -> <<"arr", TLCEval([i \in DOMAIN v[2] |-> NormV(ty[2][i], v[2][i])])>>
    [] ty[1] = "struct" -> <<"arr", TLCEval([i \in DOMAIN v[2] |-> NormV(ty[2][i][2], v[2][i])])>>
    [] ty[1] = "map" -> <<"map", {<<v[2][i][1], NormV(ty[3], v[2][i][2])>> : i \in DOMAIN v[2]}, Len(v[2])>>
    [] ty[1] = "enum" ->
         (LET va == ty[2][v[2]]
          IN  <<"var", v[2], CASE va[2] = "unit" -> <<"unit">>
                               [] va[2] = "newtype" -> NormV(va[3], v[3])
                               [] va[2] = "tuple" -> NormV(<<"tuple", va[3]>>, v[3])
                               [] va[2] = "struct" -> NormV(<<"struct", va[3]>>, v[3])>>)
    [] ty[1] = "any" -> NormT(v)
    [] OTHER -> v

=============================================================================
