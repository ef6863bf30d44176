----------------------------- MODULE TraceSerde -----------------------------
(***************************************************************************)
(* Is every recorded serialization and deserialization allowed by Serde?   *)
(*                                                                         *)
(* Events (each is independent of the others):                             *)
(*   <<"ser", type, value, result, document, sk, back>>                    *)
(*       result "ok", or "not-collection", "key:" and its kind, "other",   *)
(*       "panic"; back: the document read as the same type                 *)
(*   <<"de", document, sk, type, back>>                                    *)
(*   <<"rt", type name, result, document, sk, equal>>  a Rust type         *)
(* back is <<"ok", value>>, <<"err">> or <<"panic">>.                      *)
(***************************************************************************)
EXTENDS Serde, FleeceFormat, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, pos, rej
vars == <<tid, pos, rej>>

Ev == Traces[tid].ev
E == Ev[pos]
P(b, s) == IF b THEN {s} ELSE {}

SerProblems(ty, v, res, d, sk, back) ==
  LET no == Refusals(ty, v)
  IN  IF res = "panic" THEN {"panicked"}
      ELSE IF no # {} THEN (IF res = "ok" THEN {"not-refused"} ELSE P(res \notin no, "wrong-error"))
      ELSE IF res # "ok" THEN {"refused"}
      ELSE IF DocSev(d, sk) # 0 THEN {"not-well-formed"}
      ELSE IF Norm(Tree(d, sk)) # Norm(Ser(ty, v)) THEN {"wrong-document"}
      ELSE IF back[1] = "panic" THEN {"panicked"}
      ELSE IF Faithful(ty) THEN (IF back[1] # "ok" THEN {"not-read-back"}
                                 ELSE P(NormV(ty, back[2]) # NormV(ty, v), "read-back-differs"))
      ELSE P(back[1] = "ok" /\ ~Agrees(ty, Tree(d, sk), back[2]), "does-not-agree")

DeProblems(d, sk, ty, back) ==
  LET \* shared keys which are missing have numbers all the same
      all == [i \in 1..4096 |-> IF i <= Len(sk) THEN sk[i] ELSE <<1000, i>>]
      sev == DocSev(d, all)
      t == Tree(d, all)
  IN  IF back[1] = "panic" THEN {"panicked"}
      ELSE IF sev = 2 THEN P(back[1] = "ok", "invalid-accepted")
      ELSE IF sev = 1 THEN {}
      ELSE IF back[1] = "ok" THEN P(~Agrees(ty, t, back[2]), "does-not-agree")
      ELSE P(Must(ty, t), "must-be-read")

RtProblems(res, d, sk, eq) ==
  IF res # "ok" THEN {"refused"}
  ELSE P(DocSev(d, sk) # 0, "not-well-formed") \cup P(~eq, "read-back-differs")

Problems(e) ==
  CASE e[1] = "ser" -> SerProblems(e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "de" -> DeProblems(e[2], e[3], e[4], e[5])
    [] e[1] = "rt" -> RtProblems(e[3], e[4], e[5], e[6])
    [] OTHER -> {"must-not-happen"}

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ rej = {}

Step ==
  LET p == Problems(E)
  IN  IF p # {} THEN PrintT(<<"REJECT", tid, pos, p>>) /\ rej' = p /\ UNCHANGED <<tid, pos>>
      ELSE pos' = pos + 1 /\ UNCHANGED <<tid, rej>>

Next == rej = {} /\ pos <= Len(Ev) /\ Step
Spec == Init /\ [][Next]_vars

=============================================================================
