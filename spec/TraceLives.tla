----------------------------- MODULE TraceLives -----------------------------
(***************************************************************************)
(* Is every recorded history of handles one of Lifetimes?                  *)
(*                                                                         *)
(* Handles are numbered in order of creation (h), documents too (doc).     *)
(* blk is the block of memory a handle refers to; -1: nothing was          *)
(* returned; -2: a panic; 0: memory which is not tracked.  Events:         *)
(*   <<"doc", d, sk>>                                                      *)
(*   <<"mk", kind, doc, blk>>   <<"clone", h, blk>>   <<"root", h, blk>>   *)
(*   <<"data", h, blk>>         <<"to", h, kind, blk>>                     *)
(*   <<"find", h, blk>>         the handle's address looked up             *)
(*   <<"again", h, blk>>        a new scope over bytes                     *)
(*   <<"rm", h>>                removing a scope                           *)
(*   <<"drop", <<h, ...>>>>     dropped, at the same time if several       *)
(*   <<"walk", h, tree>>        everything read through a handle           *)
(*   <<"bytes", h, equal>>      of "S" and "B": are these the bytes of doc *)
(*   <<"cmp", kind, <<h, ...>>, eq, ord, <<n, n>>, found>>                 *)
(*                        matrices: 1 or 0; -1, 0 or 1 (not of "S");       *)
(*                        how many are different, of a set, after sorting; *)
(*                        were all found in a set                          *)
(*   <<"empties", trees, equal>>   AllocedArray and AllocedDict::empty     *)
(*   <<"live", <<<<blk, allocated>>, ...>>>>                               *)
(*   <<"frees", n>>             wrong releases of memory so far            *)
(***************************************************************************)
EXTENDS Lifetimes, FleeceFormat, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, pos, hs, removed, docs, rej,
          less  \* <<kind, b, c>>: handles to block b were found to be less than those to c
vars == <<tid, pos, hs, removed, docs, rej, less>>

Ev == Traces[tid].ev
E == Ev[pos]
P(b, s) == IF b THEN {s} ELSE {}

RootKind(doc) == IF docs[doc].ok THEN (CASE docs[doc].tree[1] = "arr" -> "A" [] docs[doc].tree[1] = "dict" -> "D" [] OTHER -> "V") ELSE ""

\* Keys in shared keys are not part of the data: they can be read while their scope can be found
KeysReadable(h) == docs[hs[h].doc].sk = <<>> \/ Findable(hs, removed, hs[h].blk) # {}

\* a handle of the wanted kind, or nothing
Result(want, blk, s) ==
  P(blk = -2, s \o "-panicked")
  \cup P(blk # -2 /\ want = (blk = -1), s \o (IF want THEN "-gave-nothing" ELSE "-gave-something"))

\* Handles refer to the root of their block, so that they are equal if the blocks are
Blk(e, i) == hs[e[3][i]].blk
FoundLess(e) == IF e[5] = <<>> THEN {}
                ELSE {<<e[2], Blk(e, q[1]), Blk(e, q[2])>> : q \in {p \in (DOMAIN e[3]) \X (DOMAIN e[3]) : e[5][p[1]][p[2]] = -1}}
CmpProblems(e) ==
  LET D == DOMAIN e[3]
      new == FoundLess(e)
      n == Cardinality({Blk(e, i) : i \in D})
  IN  IF \E i \in D : ~IsLive(hs, e[3][i]) \/ Blk(e, i) <= 0 THEN {"unknown-handle"}
      ELSE P(\E i, j \in D : e[4][i][j] # (IF Blk(e, i) = Blk(e, j) THEN 1 ELSE 0), "equality")
           \cup P(~e[7], "not-found-in-a-set")
           \cup (IF e[5] = <<>> THEN {}
                 ELSE P(e[6] # <<n, n>>, "number-of-different-handles")
                      \cup P(\E i, j \in D : (e[5][i][j] = 0) # (e[4][i][j] = 1), "order-and-equality-differ")
                      \cup P(\E i, j \in D : e[5][i][j] \notin -1..1 \/ e[5][i][j] # -e[5][j][i], "order-not-antisymmetric")
                      \cup P(\E i, j, k \in D : e[5][i][j] = -1 /\ e[5][j][k] = -1 /\ e[5][i][k] # -1, "order-not-transitive")
                      \cup P(\E x \in new : <<x[1], x[3], x[2]>> \in less, "order-changed"))

Problems(e) ==
  CASE e[1] = "doc" -> {}
    [] e[1] = "mk" -> Result(e[2] = "S" \/ (e[2] = "V" /\ RootKind(e[3]) # "") \/ e[2] = RootKind(e[3]), e[4], "creation")
    [] e[1] = "clone" -> P(~IsLive(hs, e[2]), "unknown-handle") \cup Result(TRUE, e[3], "clone")
    [] e[1] = "root" -> Result(RootKind(hs[e[2]].doc) # "", e[3], "root")
    [] e[1] = "data" -> Result(TRUE, e[3], "data")
    [] e[1] = "to" -> Result(RootKind(hs[e[2]].doc) = e[3], e[4], "conversion")
    [] e[1] = "find" -> Result(Findable(hs, removed, hs[e[2]].blk) # {}, e[3], "lookup")
                        \cup P(e[3] > 0 /\ e[3] # hs[e[2]].blk, "lookup-gave-another-scope")
    [] e[1] = "again" -> Result(TRUE, e[3], "creation")
    [] e[1] = "rm" -> P(~IsLive(hs, e[2]), "unknown-handle")
    [] e[1] = "drop" -> P(\E i \in DOMAIN e[2] : ~IsLive(hs, e[2][i]), "unknown-handle")
    [] e[1] = "walk" -> P(~IsLive(hs, e[2]), "unknown-handle") \cup
                        LET t == docs[hs[e[2]].doc].tree
                        IN  P(KeysReadable(e[2]) /\ e[3] # t, "content-changed")
    [] e[1] = "bytes" -> P(~e[3], "bytes-changed")
    [] e[1] = "cmp" -> CmpProblems(e)
    [] e[1] = "empties" -> P(e[2] # <<<<"arr", <<>>>>, <<"arr", <<>>>>, <<"dict", <<>>>>, <<"dict", <<>>>>>> \/ ~e[3], "empty-is-not-empty")
    [] e[1] = "live" -> P(\E i \in DOMAIN e[2] : ~e[2][i][2] /\ Needed(hs, e[2][i][1]), "released-too-early")
                        \cup P(\E i \in DOMAIN e[2] : e[2][i][2] /\ ~Needed(hs, e[2][i][1]), "not-released")
    [] e[1] = "frees" -> P(e[2] # 0, "wrong-release")
    [] OTHER -> {"must-not-happen"}

HsAfter(e) ==
  CASE e[1] = "mk" -> (IF e[4] >= 0 THEN Add(hs, e[2], e[4], e[3], IF e[2] = "S" THEN NewScope(hs) ELSE 0) ELSE hs)
    [] e[1] = "clone" -> Append(hs, [hs[e[2]] EXCEPT !.blk = e[3]])
    [] e[1] = "root" -> (IF e[3] >= 0 THEN Add(hs, "V", e[3], hs[e[2]].doc, 0) ELSE hs)
    [] e[1] = "data" -> Add(hs, "B", e[3], hs[e[2]].doc, 0)
    [] e[1] = "to" -> (IF e[4] >= 0 THEN Add(Gone(hs, e[2]), e[3], e[4], hs[e[2]].doc, 0) ELSE Gone(hs, e[2]))
    [] e[1] = "find" -> (IF e[3] >= 0 THEN Add(hs, "S", hs[e[2]].blk, hs[e[2]].doc,
                                               CHOOSE s \in Findable(hs, removed, hs[e[2]].blk) : TRUE) ELSE hs)
    [] e[1] = "again" -> Add(hs, "S", e[3], hs[e[2]].doc, NewScope(hs))
    [] e[1] = "drop" -> GoneAll(hs, e[2])
    [] OTHER -> hs

DocOf(d, sk) == LET ok == WellFormed(d, sk)
                IN  [ok |-> ok, sk |-> sk, tree |-> IF ok THEN Tree(d, sk) ELSE <<"none">>]

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ hs = <<>> /\ removed = {} /\ docs = <<>> /\ rej = {} /\ less = {}

Step ==
  LET e == E
      p == Problems(e)
  IN  IF p # {} THEN /\ PrintT(<<"REJECT", tid, pos, p>>)
                     /\ rej' = p
                     /\ UNCHANGED <<tid, pos, hs, removed, docs, less>>
      ELSE /\ pos' = pos + 1
           /\ hs' = HsAfter(e)
           /\ removed' = IF e[1] = "rm" THEN removed \cup {hs[e[2]].scope} ELSE removed
           /\ docs' = IF e[1] = "doc" THEN Append(docs, DocOf(e[2], e[3])) ELSE docs
           /\ less' = IF e[1] = "cmp" THEN less \cup FoundLess(e) ELSE less
           /\ UNCHANGED <<tid, rej>>

Next == rej = {} /\ pos <= Len(Ev) /\ Step

Spec == Init /\ [][Next]_vars

=============================================================================
