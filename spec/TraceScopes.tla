----------------------------- MODULE TraceScopes -----------------------------
(***************************************************************************)
(* Is every recorded history of the registry one of Scopes?                *)
(*                                                                         *)
(* Scopes are numbered in order of creation; addresses are their ranks     *)
(* among all addresses of the history.  Events:                            *)
(*   <<"new", lo, hi, sk, good>>  with shared keys; of a valid document    *)
(*   <<"newpanic">>               the data could not be had: no scope      *)
(*   <<"clone", i>> <<"drop", i>> <<"rm", i>>                              *)
(*   <<"hold", i>>  <<"rel", i>>  a handle to the data, or its release     *)
(*   <<"find", <<<<a, r>>, ...>>>>   lookups: 0 nothing, -1 an unknown or  *)
(*   <<"fsk",  <<<<a, r>>, ...>>>>   dead scope, -2 a panic                *)
(*   <<"get",  <<<<a, r>>>>>>        lookup whose result is a new handle   *)
(*   <<"obs", i, lo, hi, data, root>>  what a scope says of itself         *)
(*   <<"eq", i, j, b>>            are two scopes equal?                    *)
(*   <<"bad", message>>           anything which must not happen           *)
(***************************************************************************)
EXTENDS Scopes, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, pos, scopes, good, rej

vars == <<tid, pos, scopes, good, rej>>

Ev == Traces[tid].ev
E == Ev[pos]
P(b, s) == IF b THEN {s} ELSE {}

Known(i) == i \in DOMAIN scopes
Living(i) == Known(i) /\ Alive(scopes, i)

Problems(e) ==
  CASE e[1] = "new" -> P(~AtMostOneOwner(New(scopes, e[2], e[3], e[4])), "memory-in-use-was-reused")
    [] e[1] = "newpanic" -> {}
    [] e[1] \in {"clone", "drop", "rm", "hold"} -> P(~Living(e[2]), "event-of-a-dead-scope")
    [] e[1] = "rel" -> P(~Known(e[2]), "event-of-an-unknown-scope")
    [] e[1] \in {"find", "get"} -> P(\E k \in DOMAIN e[2] : e[2][k][2] # Containing(scopes, e[2][k][1]), "lookup")
    [] e[1] = "fsk" -> P(\E k \in DOMAIN e[2] : e[2][k][2] # FindSharedKeys(scopes, e[2][k][1]), "lookup-of-shared-keys")
    [] e[1] = "obs" -> P(~Living(e[2]), "event-of-a-dead-scope")
                       \cup P(Living(e[2]) /\ (e[3] # scopes[e[2]].lo \/ e[4] # scopes[e[2]].hi), "range")
                       \cup P(~e[5], "data")
                       \cup P(e[6] # good[e[2]], "root")
    [] e[1] = "eq" -> P(e[4] # (e[2] = e[3]), "equality")
    [] OTHER -> {"must-not-happen"}

Effect(e) ==
  CASE e[1] = "new" -> New(scopes, e[2], e[3], e[4])
    [] e[1] = "clone" -> AddHandle(scopes, e[2])
    [] e[1] = "get" -> (IF e[2][1][2] > 0 THEN AddHandle(scopes, e[2][1][2]) ELSE scopes)
    [] e[1] = "drop" -> DropHandle(scopes, e[2])
    [] e[1] = "rm" -> Remove(scopes, e[2])
    [] e[1] = "hold" -> [scopes EXCEPT ![e[2]].data = @ + 1]
    [] e[1] = "rel" -> [scopes EXCEPT ![e[2]].data = @ - 1]
    [] OTHER -> scopes

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ scopes = <<>> /\ good = <<>> /\ rej = {}

Step ==
  LET e == E
      p == Problems(e)
  IN  IF p # {} THEN /\ PrintT(<<"REJECT", tid, pos, p>>)
                     /\ rej' = p
                     /\ UNCHANGED <<tid, pos, scopes, good>>
      ELSE /\ pos' = pos + 1
           /\ scopes' = Effect(e)
           /\ good' = IF e[1] = "new" THEN Append(good, e[5]) ELSE good
           /\ UNCHANGED <<tid, rej>>

Next == rej = {} /\ pos <= Len(Ev) /\ Step

Spec == Init /\ [][Next]_vars

=============================================================================
