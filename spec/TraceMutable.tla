---------------------------- MODULE TraceMutable ----------------------------
(***************************************************************************)
(* Is every recorded history of mutable collections one of Mutable?        *)
(*                                                                         *)
(* Handles and documents are numbered in order of creation.  Events:       *)
(*   <<"doc", d, sk>>            a document (and its shared keys)          *)
(*   <<"new", want>>             an empty collection, want "a" or "d"      *)
(*   <<"copy", want, doc, position, got>>   a copy of that part, if got    *)
(*   <<"clone", h, path, got>>   a copy of a (nested) mutable collection   *)
(*   <<"drop", h>>                                                         *)
(*   <<"op", h, path, edit, result>>  result "ok", "none": path leads      *)
(*       nowhere, or "panic".  Edits:                                      *)
(*       <<"push", t>> <<"pushf", doc, position>> <<"set", i, t>>          *)
(*       <<"setf", i, doc, position>> <<"setc", i, want, src>>             *)
(*       <<"rm", i>> <<"ins", k, t>> <<"insc", k, want, src>> <<"rmk", k>> *)
(*       src: <<"h", handle>> moved, <<"e">> empty, <<"doc", doc, pos>>    *)
(*   <<"dump", h, d>>            everything read through a handle          *)
(*   <<"walk", doc, tree>>       everything read from a source document    *)
(*   <<"bad", message>>                                                    *)
(* A dump is <<"ma", length, is_empty, items, hints, reads by index>> or   *)
(* <<"md", length, is_empty, items, hints, reads by key>>.  An item has    *)
(* what the iterator gave: (key,) is it a value, an array, a dict, and the *)
(* scalar or the dump of the collection.  Reads by index: get, get_array,  *)
(* get_dict, index, each 1 for the item of that index, 0 for nothing (a    *)
(* panic of the index operator), -1 for something else; by key: the key,   *)
(* get, get_array, get_dict, contains, index, as positions among the items.*)
(***************************************************************************)
EXTENDS Mutable, FleeceFormat, FleeceReads, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, pos, hs, docs, rej

vars == <<tid, pos, hs, docs, rej>>

Ev == Traces[tid].ev
E == Ev[pos]
P(b, s) == IF b THEN {s} ELSE {}

Part(doc, p) == Copy(Node(docs[doc], p))
Is(h) == h \in DOMAIN hs /\ hs[h] # <<>>

\* what a source of a collection gives
FromSrc(want, s) == CASE s[1] = "h" -> hs[s[2]][1]
                      [] s[1] = "e" -> EmptyOf(want)
                      [] s[1] = "doc" -> Part(s[2], s[3])

Operand(e) == CASE e[1] = "push" -> e[2]
                [] e[1] = "pushf" -> Part(e[2], e[3])
                [] e[1] = "set" -> e[3]
                [] e[1] = "setf" -> Part(e[3], e[4])
                [] e[1] = "setc" -> FromSrc(e[3], e[4])
                [] e[1] = "ins" -> e[3]
                [] e[1] = "insc" -> FromSrc(e[3], e[4])
                [] OTHER -> <<>>
Sets(e) == e[1] \in {"set", "setf", "setc"}
Edited(n, e) == CASE e[1] \in {"push", "pushf"} -> PushTo(n, Operand(e))
                  [] Sets(e) -> (IF InRange(n, e[2]) THEN SetAt(n, e[2], Operand(e)) ELSE n)
                  [] e[1] = "rm" -> RemoveAt(n, e[2])
                  [] e[1] \in {"ins", "insc"} -> InsertAt(n, e[2], Operand(e))
                  [] e[1] = "rmk" -> RemoveKey(n, e[2])
\* the handle which an edit moves from, or 0
Moved(e) == IF e[1] \in {"setc", "insc"} THEN (IF e[4][1] = "h" THEN e[4][2] ELSE 0) ELSE 0

HintsFor(n) == [k \in 1..(n + 3) |-> IF k <= n THEN <<n - k + 1, n - k + 1>> ELSE <<0, 0>>]
Kinds(n) == <<IF IsNode(n) THEN 0 ELSE 1, IF n[1] = "ma" THEN 1 ELSE 0, IF n[1] = "md" THEN 1 ELSE 0>>
SeenKinds(item, at) == <<item[at], item[at + 1], item[at + 2]>>

RECURSIVE DumpProblems(_, _)
ItemProblems(n, item, at) ==
  IF SeenKinds(item, at) # Kinds(n) THEN {"kind"}
  ELSE IF IsNode(n) THEN DumpProblems(n, item[at + 3])
  ELSE P(item[at + 3] # n, "value")
DumpProblems(n, d) ==
  IF d[1] # n[1] THEN {"kind"}
  ELSE IF d[1] = "ma"
  THEN LET len == Len(n[2])
           Expect(i) == LET k == Kinds(n[2][i]) IN <<k[1], k[2], k[3], k[1]>>
       IN  P(d[2] # len, "length") \cup P(d[3] # (len = 0), "is-empty") \cup P(d[5] # HintsFor(len), "size-hint")
           \cup IF Len(d[4]) # len THEN {"iteration"}
                ELSE UNION {ItemProblems(n[2][i], d[4][i], 1) : i \in 1..len}
                     \cup P(\E i \in DOMAIN d[6] : d[6][i] # (IF i <= len THEN Expect(i) ELSE <<0, 0, 0, 0>>), "read-by-index")
  ELSE LET keys == DOMAIN n[2]
           len == Cardinality(keys)
           where == TLCEval([k \in {d[4][i][1] : i \in DOMAIN d[4]} |-> CHOOSE i \in DOMAIN d[4] : d[4][i][1] = k])
           Expect(k) == LET w == Kinds(n[2][k])
                            p == where[k]
                        IN  <<k, w[1] * p, w[2] * p, w[3] * p, 1, w[1] * p>>
       IN  P(d[2] # len, "length") \cup P(d[3] # (len = 0), "is-empty") \cup P(d[5] # HintsFor(len), "size-hint")
           \cup IF Len(d[4]) # len \/ DOMAIN where # keys THEN {"iteration"}
                ELSE UNION {ItemProblems(n[2][d[4][i][1]], d[4][i], 2) : i \in 1..len}
                     \cup P(\E i \in DOMAIN d[6] :
                              LET k == d[6][i][1]
                              IN  d[6][i] # (IF k \in keys THEN Expect(k) ELSE <<k, 0, 0, 0, 0, 0>>), "read-by-key")

ResultOf(e) ==
  LET r == Reach(hs[e[2]][1], e[3])
  IN  IF r = <<>> THEN "none"
      ELSE IF Sets(e[4]) THEN (IF InRange(r[1], e[4][2]) THEN "ok" ELSE "panic")
      ELSE "ok"

Problems(e) ==
  CASE e[1] \in {"doc", "new"} -> {}
    [] e[1] = "copy" -> P(e[5] # IsOf(Part(e[3], e[4]), e[2]), "copy-of-kind")
    [] e[1] = "clone" -> P(e[4] # (Reach(hs[e[2]][1], e[3]) # <<>>), "reaching-a-nested-collection")
    [] e[1] = "drop" -> P(~Is(e[2]), "unknown-handle")
    [] e[1] = "op" -> P(e[5] # ResultOf(e), IF e[5] = "panic" THEN "panicked" ELSE "result")
    [] e[1] = "dump" -> DumpProblems(hs[e[2]][1], e[3])
    [] e[1] = "walk" -> P(Norm(e[3]) # Norm(docs[e[2]]), "source-changed")
    [] OTHER -> {"must-not-happen"}

HsAfter(e) ==
  CASE e[1] = "new" -> Append(hs, <<EmptyOf(e[2])>>)
    [] e[1] = "copy" -> (IF e[5] THEN Append(hs, <<Part(e[3], e[4])>>) ELSE hs)
    [] e[1] = "clone" -> (IF e[4] THEN Append(hs, Reach(hs[e[2]][1], e[3])) ELSE hs)
    [] e[1] = "drop" -> [hs EXCEPT ![e[2]] = <<>>]
    [] e[1] = "op" -> (IF ResultOf(e) = "none" THEN hs
                       ELSE LET n == hs[e[2]][1]
                                new == Replace(n, e[3], Edited(Reach(n, e[3])[1], e[4]))
                                m == Moved(e[4])
                            IN  IF m = 0 THEN [hs EXCEPT ![e[2]] = <<new>>]
                                ELSE [hs EXCEPT ![e[2]] = <<new>>, ![m] = <<>>])
    [] OTHER -> hs

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ hs = <<>> /\ docs = <<>> /\ rej = {}

Step ==
  LET e == E
      p == Problems(e)
  IN  IF p # {} THEN /\ PrintT(<<"REJECT", tid, pos, p>>)
                     /\ rej' = p
                     /\ UNCHANGED <<tid, pos, hs, docs>>
      ELSE /\ pos' = pos + 1
           /\ hs' = HsAfter(e)
           /\ docs' = IF e[1] = "doc" THEN Append(docs, Tree(e[2], e[3])) ELSE docs
           /\ UNCHANGED <<tid, rej>>

Next == rej = {} /\ pos <= Len(Ev) /\ Step

Spec == Init /\ [][Next]_vars

=============================================================================
