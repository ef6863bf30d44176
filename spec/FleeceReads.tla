---------------------------- MODULE FleeceReads ----------------------------
(***************************************************************************)
(* What reading a document of a given meaning must give.                   *)
(*                                                                         *)
(* A tree t is in stored order (FleeceFormat!Tree).  A position p is a     *)
(* sequence of 1-based indices, of array elements or of dict entries.      *)
(*                                                                         *)
(* The answers of the code are recorded as                                 *)
(*   walks : <<tree, ...>>  the whole document read by some route          *)
(*   dq    : dicts    p len emp first hints                                *)
(*                    g : <<key, get, contains, get with shared keys,      *)
(*                          contains with shared keys, index>>             *)
(*   aq    : arrays   p len emp ilen hints   g : <<index, result>>         *)
(*   cv    : conversions of a value   p b i16 u16 i64 u64 f64 f32 s d a o  *)
(* A result which is an element of the collection is recorded as its       *)
(* 0-based number, nothing as -1, anything else as 1000000, a panic as -2, *)
(* and a query which was not made as -3.                                   *)
(***************************************************************************)
EXTENDS Numbers, FiniteSets

NOTHING == -1
SKIPPED == -3

RECURSIVE NodeAt(_, _, _)
NodeAt(t, p, i) ==
  IF i > Len(p) THEN t
  ELSE IF t[1] = "arr" THEN NodeAt(t[2][p[i]], p, i + 1)
  ELSE NodeAt(t[2][p[i]][2], p, i + 1)
Node(t, p) == NodeAt(t, p, 1)

\* Size hints before each of the n+1 calls of next are exact: <<lower, upper>>, upper -1 if none.
HintsExact(h, n) == Len(h) = n + 1 /\ \A i \in 1..(n + 1) : h[i] = <<n - i + 1, n - i + 1>>
\* Size hints which are correct bounds.
HintsSound(h, n) == Len(h) = n + 1 /\ \A i \in 1..(n + 1) :
                      h[i][1] <= n - i + 1 /\ (h[i][2] = -1 \/ h[i][2] >= n - i + 1)

If(b, s) == IF b THEN {s} ELSE {}

DictProblems(t, q) ==
  LET d == Node(t, q.p)
      es == d[2]
      n == Len(es)
      keys == {es[i][1] : i \in 1..n}
      distinct == Cardinality(keys) = n
      \* what a lookup of k may answer
      Right(k, r) == \/ r = SKIPPED
                     \/ IF r >= 0 THEN r < n /\ es[r + 1][1] = k
                        ELSE r = NOTHING /\ k \notin keys
      RightB(k, r) == r = SKIPPED \/ r = (IF k \in keys THEN 1 ELSE 0)
      RightIx(k, r) == \/ r = SKIPPED
                       \/ IF k \in keys THEN Right(k, r) ELSE r = -2
  IN  If(q.len # n, "dict-len")
      \cup If(q.emp # (n = 0), "dict-is-empty")
      \cup If(q.first # (IF n = 0 THEN NOTHING ELSE 0), "dict-first")
      \cup If(~HintsExact(q.hints, n), "dict-size-hint")
      \cup IF ~distinct THEN {}
           ELSE If(\E i \in DOMAIN q.g : ~Right(q.g[i][1], q.g[i][2]), "dict-get")
                \cup If(\E i \in DOMAIN q.g : ~RightB(q.g[i][1], q.g[i][3]), "dict-contains")
                \cup If(\E i \in DOMAIN q.g : ~Right(q.g[i][1], q.g[i][4]), "dict-get-with-shared-keys")
                \cup If(\E i \in DOMAIN q.g : ~RightB(q.g[i][1], q.g[i][5]), "dict-contains-with-shared-keys")
                \cup If(\E i \in DOMAIN q.g : ~RightIx(q.g[i][1], q.g[i][6]), "dict-index")

ArrayProblems(t, q) ==
  LET a == Node(t, q.p)
      n == Len(a[2])
      Right(i, r) == r = SKIPPED \/ r = (IF i >= 0 /\ i < n THEN i ELSE NOTHING)
  IN  If(q.len # n, "array-len")
      \cup If(q.emp # (n = 0), "array-is-empty")
      \cup If(~HintsExact(q.hints, n), "array-size-hint")
      \cup If(\E i \in DOMAIN q.g : ~Right(q.g[i][1], q.g[i][2]), "array-get")
      \cup If(\E i \in DOMAIN q.g : ~(q.g[i][3] = SKIPPED
                 \/ (IF q.g[i][1] >= 0 /\ q.g[i][1] < n THEN q.g[i][3] = q.g[i][1] ELSE q.g[i][3] = -2)), "array-index")

(***************************************************************************)
(* Conversions                                                             *)
(***************************************************************************)
ZeroInt == <<"int", 0, <<>>>>
ZeroF == <<"flt", <<0, 0, 0, 0, 0, 0, 0, 0>>>>

ToBoolRule(v) == CASE v[1] = "int" -> v[3] # <<>>
                   [] v[1] = "flt" -> ~IsZeroF(v)
                   [] v[1] = "bool" -> v[2]
                   [] OTHER -> TRUE

\* the integer of v, if it has one within what TruncF64 covers, else <<>>
AsInt(v) == CASE v[1] = "int" -> <<v>>
              [] v[1] = "flt" -> IF F64IsFinite(v[2]) /\ UExp(v[2]) < 64 THEN <<TruncF64(v[2])>> ELSE <<>>
              [] v[1] = "bool" -> <<FromSmall(IF v[2] THEN 1 ELSE 0)>>
              [] v[1] = "nan" -> <<>>
              [] OTHER -> <<ZeroInt>>

IntOk(v, r, fits) == LET i == AsInt(v) IN i # <<>> /\ fits => r = i[1]

ToF64Ok(v, r) == CASE v[1] \in {"flt", "nan"} -> r = v
                   [] v[1] = "int" -> IF IntExactF64(v) THEN r = IntToF64(v) ELSE r[1] = "flt"
                   [] v[1] = "bool" -> r = IntToF64(FromSmall(IF v[2] THEN 1 ELSE 0))
                   [] OTHER -> r = ZeroF
ToF32Ok(v, r) ==
  CASE v[1] = "nan" -> r = v
    [] v[1] = "flt" -> ExactF32Normal(v[2]) => r = v
    [] v[1] = "int" -> IntExactF64(v) /\ ExactF32Normal(IntToF64(v)[2]) => r = IntToF64(v)
    [] v[1] = "bool" -> r = IntToF64(FromSmall(IF v[2] THEN 1 ELSE 0))
    [] OTHER -> r = ZeroF

Fit1(v, Op(_, _), n) == LET i == AsInt(v) IN i # <<>> /\ Op(i[1], n)

ConvProblems(t, q) ==
  LET v == Dbl(Node(t, q.p)) IN
  If(q.b # ToBoolRule(v), "to-bool")
  \cup If(~IntOk(v, q.i16, Fit1(v, FitsSigned, 2)), "to-short")
  \cup If(~IntOk(v, q.u16, Fit1(v, FitsUnsigned, 2)), "to-unsigned-short")
  \cup If(~IntOk(v, q.i64, Fit1(v, FitsSigned, 8)), "to-int")
  \cup If(~IntOk(v, q.u64, Fit1(v, FitsUnsigned, 8)), "to-unsigned-int")
  \cup If(~ToF64Ok(v, q.f64), "to-double")
  \cup If(~ToF32Ok(v, q.f32), "to-float")
  \cup If(q.s # (IF v[1] = "str" THEN v[2] ELSE <<>>), "to-str")
  \cup If(~(IF v[1] = "data" THEN q.d = v[2]
            ELSE IF v[1] = "str" THEN q.d \in {v[2], <<>>} ELSE q.d = <<>>), "to-data")
  \cup If(q.a # (v[1] = "arr"), "as-array")
  \cup If(q.o # (v[1] = "dict"), "as-dict")

(***************************************************************************)
(* All recorded reads of a document whose meaning is t (in stored order).  *)
(***************************************************************************)
ReadProblems(t, r) ==
  If(\E i \in DOMAIN r.walks : r.walks[i] # t, "walk")
  \cup UNION {DictProblems(t, r.dq[i]) : i \in DOMAIN r.dq}
  \cup UNION {ArrayProblems(t, r.aq[i]) : i \in DOMAIN r.aq}
  \cup UNION {ConvProblems(t, r.cv[i]) : i \in DOMAIN r.cv}

=============================================================================
