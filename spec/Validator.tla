------------------------------ MODULE Validator ------------------------------
(***************************************************************************)
(* The library's algorithm for accepting untrusted bytes, and for reading  *)
(* what was accepted, on every short document of significant bytes:        *)
(*   - what the format calls invalid is refused, what it calls well-formed *)
(*     is accepted;                                                        *)
(*   - no byte outside the data is read, neither by the validation nor by  *)
(*     reading all of what was accepted, and no slice is indexed beyond    *)
(*     its end;                                                            *)
(*   - the validation ends.                                                *)
(*                                                                         *)
(* A value is an offset o and the number l of bytes which the library says *)
(* it has.  Results: "ok", "err", or "out" (a byte outside was read).      *)
(*                                                                         *)
(* Variant "real" is the library.  Wrong designs, which must be refuted:   *)
(*   "count"     a collection's slots are taken to be narrow               *)
(*   "required"  the size of what is referred to is not compared           *)
(*   "elem"      the size of what is in a slot is not compared             *)
(*   "external"  the mark of external references is ignored                *)
(*   "start"     a reference may lead to before the data                   *)
(*   "end"       collections are bounded by the data only                  *)
(*   "zero"      a reference may lead to itself                            *)
(***************************************************************************)
EXTENDS FleeceFormat

CONSTANTS Significant, \* the bytes
          Roots,       \* the last two bytes
          MaxBody,     \* the largest number of bytes before them
          Variant

VARIABLE body
vars == <<body>>

Init == body = <<>>
Next == Len(body) < MaxBody /\ \E a, b \in Significant : body' = body \o <<a, b>>
Spec == Init /\ [][Next]_vars

\* k bytes of a value of l bytes at o can be read
Can(d, o, l, k) == k <= l /\ o >= 0 /\ o + k <= Len(d)
In(d, o, k) == o >= 0 /\ o + k <= Len(d)

\* <<bytes read, value>>; -1 if outside the data is read
VarintIn(d, o, l) ==
  LET lim == IF o + l > Len(d) THEN Len(d) ELSE o + l
      v == Varint(d, o, lim)
  IN  IF l <= 0 THEN <<0, 0>>
      ELSE IF v[1] = 0 /\ lim < o + l THEN <<-1, 0>> ELSE v

\* what is needed to hold a value; -1 if outside the data is read
Required(d, o, l) ==
  LET t == Tag(d, o)
  IN  IF t = 1 THEN 2 + (Low(d, o) % 8)
      ELSE IF t = 2 THEN (IF (Low(d, o) \div 8) % 2 = 1 THEN 10 ELSE 6)
      ELSE IF t \in {4, 5}
      THEN IF Low(d, o) # 15 THEN Max(2, 1 + Low(d, o))
           ELSE LET v == VarintIn(d, o + 1, l - 1)
                IN  IF v[1] = -1 THEN -1
                    ELSE IF v[1] = 0 \/ v[2] >= HUGE THEN HUGE
                    ELSE Max(2, 1 + v[1] + v[2])
      ELSE 2

\* <<result, target, bytes>>
RECURSIVE Deref(_, _, _, _)
Deref(d, o, l, w) ==
  IF (w = 4 /\ l < 4) \/ l < 2 THEN <<"err", 0, 0>>
  ELSE IF ~In(d, o, w) THEN <<"out", 0, 0>>
  ELSE LET off == PtrOffset(d, o, w)
           t == o - off
       IN  IF off = 0 THEN (IF Variant = "zero" THEN <<"ok", o, w>> ELSE <<"err", 0, 0>>)
           ELSE IF (PtrExternal(d, o) /\ Variant # "external") \/ (t < 0 /\ Variant # "start") THEN <<"err", 0, 0>>
           ELSE IF ~In(d, t, 1) THEN <<"out", 0, 0>>
           ELSE IF IsPtr(d, t) THEN Deref(d, t, off, 4)
           ELSE <<"ok", t, off>>

\* <<result, first, count>>
Shape(d, o, l) ==
  IF ~Can(d, o, l, 2) THEN <<"out", 0, 0>>
  ELSE LET per == IF IsDict(d, o) THEN 2 ELSE 1
       IN  IF RawCount(d, o) # 2047 THEN <<"ok", o + 2, per * RawCount(d, o)>>
           ELSE LET v == VarintIn(d, o + 2, l - 2)
                IN  IF v[1] = -1 THEN <<"out", 0, 0>>
                    ELSE <<"ok", o + 2 + v[1] + (v[1] % 2), IF v[2] >= HUGE THEN HUGE ELSE per * v[2]>>

First(results) ==
  LET bad == {i \in DOMAIN results : results[i] # "ok"}
  IN  IF bad = {} THEN "ok" ELSE results[CHOOSE i \in bad : \A j \in bad : i <= j]

\* depth: the algorithm must end
RECURSIVE Valid(_, _, _, _, _, _, _)
Valid(d, o, l, elem, w, end, depth) ==
  IF depth > Len(d) \/ ~Can(d, o, l, 1) THEN "out"
  ELSE IF IsColl(d, o)
  THEN LET s == Shape(d, o, l)
           width == Width(d, o)
           avail == IF end > s[2] THEN end - s[2] ELSE 0
           slot(i) ==
             LET p == s[2] + (i - 1) * width
                 req == IF In(d, p, 1) THEN Required(d, p, width) ELSE -1
             IN  IF req = -1 THEN "out"
                 ELSE IF req > width /\ Variant # "elem" THEN "err"
                 ELSE Valid(d, p, width, TRUE, width, p + width, depth + 1)
       IN  IF s[1] = "out" THEN "out"
           ELSE IF s[2] > end \/ s[3] > avail \div (IF Variant = "count" THEN 2 ELSE width) THEN "err"
           ELSE First(TLCEval([i \in 1..s[3] |-> slot(i)]))
  ELSE IF IsPtr(d, o)
  THEN LET r == Deref(d, o, l, w)
       IN  IF r[1] # "ok" THEN r[1]
           ELSE Valid(d, r[2], r[3], FALSE, w, IF Variant = "end" THEN Len(d) ELSE o, depth + 1)
  ELSE IF elem \/ Variant = "required" THEN "ok"
  ELSE LET req == Required(d, o, l)
       IN  IF req = -1 THEN "out" ELSE IF req <= l THEN "ok" ELSE "err"

\* <<result, offset, bytes>> of the root
FindRoot(d) ==
  LET n == Len(d)
  IN  IF n = 0 \/ n % 2 # 0 THEN <<"err", 0, 0>>
      ELSE IF IsPtr(d, n - 2) THEN Deref(d, n - 2, 2, 2)
      ELSE IF n = 2 THEN <<"ok", 0, 2>> ELSE <<"err", 0, 0>>

Accepts(d) == LET r == FindRoot(d)
              IN  IF r[1] # "ok" THEN r[1] ELSE Valid(d, r[2], r[3], FALSE, 2, Len(d), 0)

(***************************************************************************)
(* Reading what was accepted: all that conversions and iteration touch.    *)
(***************************************************************************)
RECURSIVE FollowIn(_, _, _)
FollowIn(d, o, w) ==
  IF ~In(d, o, w) THEN <<-1, 0>>
  ELSE LET off == PtrOffset(d, o, w)
           t == o - off
       IN  IF off = 0 \/ ~In(d, t, 1) THEN <<-1, 0>>
           ELSE IF IsPtr(d, t) THEN FollowIn(d, t, 4) ELSE <<t, off>>

RECURSIVE Reads(_, _, _, _)
Reads(d, o, l, depth) ==
  /\ depth <= Len(d)
  /\ Can(d, o, l, 2)
  /\ IF IsColl(d, o)
     THEN LET s == Shape(d, o, l)
              width == Width(d, o)
              slot(i) == LET p == s[2] + (i - 1) * width
                         IN  IF ~In(d, p, width) THEN FALSE
                             ELSE IF IsPtr(d, p)
                             THEN LET f == FollowIn(d, p, width) IN (IF f[1] = -1 THEN FALSE ELSE Reads(d, f[1], f[2], depth + 1))
                             ELSE Reads(d, p, width, depth + 1)
          IN  s[1] = "ok" /\ s[3] < HUGE /\ \A i \in 1..s[3] : slot(i)
     ELSE CASE Tag(d, o) = 1 -> In(d, o, 2 + (Low(d, o) % 8))
            [] Tag(d, o) = 2 -> Can(d, o, l, IF (Low(d, o) \div 8) % 2 = 1 THEN 10 ELSE 6)
            \* all of the slice may be given out
            [] Tag(d, o) \in {4, 5} -> LET q == Required(d, o, l) IN q # -1 /\ (q <= l => In(d, o, q))
            [] OTHER -> TRUE

Docs == {body \o r : r \in Roots}

Inside == \A d \in Docs : Accepts(d) # "out"
Sound == \A d \in Docs : Accepts(d) = "ok" => DocSev(d, <<>>) # 2
Complete == \A d \in Docs : DocSev(d, <<>>) = 0 => Accepts(d) = "ok"
Readable == \A d \in Docs : Accepts(d) = "ok" => LET r == FindRoot(d) IN Reads(d, r[2], r[3], 0)

Wide == {0, 1, 2, 4, 18, 32, 36, 40, 48, 56, 65, 67, 79, 81, 95, 96, 103, 104, 112, 113, 120, 128, 129, 192, 255}
Deep == {0, 1, 2, 67, 79, 96, 104, 128, 255}
Long == {1, 2, 79, 104, 128}
Back == {<<128, 1>>, <<128, 2>>, <<128, 3>>, <<128, 4>>, <<128, 5>>}
AllRoots == Back \cup {<<128, 0>>, <<192, 1>>, <<128, 6>>, <<191, 255>>, <<48, 0>>, <<67, 97>>, <<96, 1>>}
=============================================================================
