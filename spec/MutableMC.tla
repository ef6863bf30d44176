------------------------------ MODULE MutableMC ------------------------------
(***************************************************************************)
(* All short histories of mutable collections, for the harness.  Keys are  *)
(* 1 and 2, scalars 1 (inline) and 2 (not inline).  Document 1 is          *)
(* [long, {k1: 3}, [70000]], document 2 is {k1: [{k1: 3}], k2: null}, with *)
(* shared keys.                                                            *)
(***************************************************************************)
EXTENDS Mutable, Json

CONSTANTS Depth, MaxHandles

VARIABLES hs, gone, hist

vars == <<hs, gone, hist>>

Inner == <<"dict", <<<<1, <<"int">>>>>>>>
Docs == << <<"arr", <<<<"str">>, Inner, <<"arr", <<<<"int">>>>>>>>>>,
           <<"dict", <<<<1, <<"arr", <<Inner>>>>>>, <<2, <<"null">>>>>>>> >>
Keys == 1..2
Wants == {"a", "d"}
Scalars == 1..2
Indices == 0..1

Init == hs = <<>> /\ gone = {} /\ hist = <<>>
Log(c) == hist' = Append(hist, c)
Living == {h \in DOMAIN hs : hs[h] # <<>>}
Room == Cardinality(Living) < MaxHandles

\* paths of at most one step to a collection
Paths(n) == {<<>>} \cup {<<s>> : s \in {x \in ({<<"i", i, w>> : i \in Indices, w \in Wants} \cup {<<"k", k, w>> : k \in Keys, w \in Wants}) :
                                         Reach(n, <<x>>) # <<>>}}

New(w) == Room /\ hs' = Append(hs, <<EmptyOf(w)>>) /\ Log(<<"new", w>>) /\ UNCHANGED gone
CopyDoc(w, d) == Room /\ d \notin gone /\ IsOf(Copy(Docs[d]), w) /\ hs' = Append(hs, <<Copy(Docs[d])>>) /\ Log(<<"copy", w, d>>) /\ UNCHANGED gone
Clone(h, p) == Room /\ hs' = Append(hs, Reach(hs[h][1], p)) /\ Log(<<"clone", h, p>>) /\ UNCHANGED gone
Drop(h) == hs' = [hs EXCEPT ![h] = <<>>] /\ Log(<<"drop", h>>) /\ UNCHANGED gone
DropDoc(d) == d \notin gone /\ gone' = gone \cup {d} /\ Log(<<"dropdoc", d>>) /\ UNCHANGED hs

Put(h, p, new, op) == hs' = [hs EXCEPT ![h] = <<Replace(hs[h][1], p, new)>>] /\ Log(<<"op", h, p, op>>) /\ UNCHANGED gone
PutMoved(h, p, new, op, m) == hs' = [hs EXCEPT ![h] = <<Replace(hs[h][1], p, new)>>, ![m] = <<>>] /\ Log(<<"op", h, p, op>>) /\ UNCHANGED gone

Edit(h, p) ==
  LET n == Reach(hs[h][1], p)[1]
  IN  IF n[1] = "ma"
      THEN \/ \E s \in Scalars : Put(h, p, PushTo(n, <<"s", s>>), <<"push", s>>)
           \/ \E d \in {1, 2} \ gone : Put(h, p, PushTo(n, Copy(Docs[d])), <<"pushf", d>>)
           \/ \E i \in Indices : InRange(n, i) /\
                \/ \E s \in Scalars : Put(h, p, SetAt(n, i, <<"s", s>>), <<"set", i, s>>)
                \/ \E d \in {1, 2} \ gone : Put(h, p, SetAt(n, i, Copy(Docs[d])), <<"setf", i, d>>)
                \/ \E w \in Wants : Put(h, p, SetAt(n, i, EmptyOf(w)), <<"setc", i, w, <<"e">>>>)
                \/ \E m \in Living \ {h} : LET w == IF hs[m][1][1] = "ma" THEN "a" ELSE "d"
                                           IN  PutMoved(h, p, SetAt(n, i, hs[m][1]), <<"setc", i, w, <<"h", m>>>>, m)
           \/ \E i \in 0..2 : Put(h, p, RemoveAt(n, i), <<"rm", i>>)
      ELSE \/ \E k \in Keys, s \in Scalars : Put(h, p, InsertAt(n, k, <<"s", s>>), <<"ins", k, s>>)
           \/ \E k \in Keys, w \in Wants : Put(h, p, InsertAt(n, k, EmptyOf(w)), <<"insc", k, w, <<"e">>>>)
           \/ \E k \in Keys, d \in {1, 2} \ gone : LET w == IF d = 1 THEN "a" ELSE "d"
                                                   IN  Put(h, p, InsertAt(n, k, Copy(Docs[d])), <<"insc", k, w, <<"doc", d>>>>)
           \/ \E k \in Keys : \E m \in Living \ {h} : LET w == IF hs[m][1][1] = "ma" THEN "a" ELSE "d"
                                                    IN  PutMoved(h, p, InsertAt(n, k, hs[m][1]), <<"insc", k, w, <<"h", m>>>>, m)
           \/ \E k \in Keys : Put(h, p, RemoveKey(n, k), <<"rmk", k>>)

Next ==
  /\ Len(hist) < Depth
  /\ \/ \E w \in Wants : New(w) \/ \E d \in 1..2 : CopyDoc(w, d)
     \/ \E h \in Living : Drop(h) \/ \E p \in Paths(hs[h][1]) : Clone(h, p) \/ Edit(h, p)
     \/ hs # <<>> /\ \E d \in 1..2 : DropDoc(d)

Spec == Init /\ [][Next]_vars

\* every handle is a collection, whose children are scalars or collections
RECURSIVE Good(_)
Good(n) == IF n[1] = "ma" THEN \A i \in DOMAIN n[2] : Good(n[2][i])
           ELSE IF n[1] = "md" THEN \A k \in DOMAIN n[2] : k \in Keys /\ Good(n[2][k])
           ELSE n[1] \in {"s", "int", "str", "null"}
Inv == \A h \in Living : IsNode(hs[h][1]) /\ Good(hs[h][1])

GenPrint == (Len(hist) = Depth) => PrintT(ToJson(hist))

=============================================================================
