------------------------------ MODULE TraceConc ------------------------------
(***************************************************************************)
(* Is every recorded concurrent history of the registry linearizable?      *)
(*                                                                         *)
(* A trace has one sequence of operations per thread; each operation ends  *)
(* with the times of its call and its return.  TLC looks for an order of   *)
(* all operations in which each gives the result it gave, as Scopes says,  *)
(* and in which none comes before one which had returned before its call.  *)
(* If there is one, DONE is printed.  Operations:                          *)
(*   <<"new", i, lo, hi, sk, c, r>>   scope number i was created           *)
(*   <<"find", a, i, c, r>>   i or 0: its handle is kept                   *)
(*   <<"fsk", a, i, c, r>>    whose shared keys, or 0; the scope is found  *)
(*                            and let go of, which are two steps           *)
(*   <<"rm", i, c, r>>  <<"drop", i, c, r>>                                *)
(*   <<"fail", 0, c, r>>      creating a scope of bad data, or of none     *)
(*   <<"bad", 0, c, r>>       an unexpected result or panic                *)
(***************************************************************************)
EXTENDS Scopes, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, pos, scopes,
          held   \* the scope which a lookup of shared keys has found and not let go of

vars == <<tid, pos, scopes, held>>

Ops == Traces[tid].ev
Threads == DOMAIN Ops
None == [lo |-> 0, hi |-> 0, n |-> 0, data |-> 0, removed |-> FALSE, sk |-> FALSE]

Init == /\ tid \in 1..Len(Traces)
        /\ pos = [t \in DOMAIN Traces[tid].ev |-> 1]
        /\ held = [t \in DOMAIN Traces[tid].ev |-> 0]
        /\ scopes = [i \in 1..Traces[tid].max |-> None]

Pending(t) == pos[t] <= Len(Ops[t])
Op(t) == Ops[t][pos[t]]
CallOf(o) == o[Len(o) - 1]
RetOf(o) == o[Len(o)]

\* no operation which has not taken effect returned before this one was called
Minimal(t) == \A u \in Threads : Pending(u) => RetOf(Op(u)) > CallOf(Op(t))

Fits(o) ==
  CASE o[1] = "new" -> TRUE
    [] o[1] = "find" -> o[3] = Containing(scopes, o[2])
    [] o[1] = "fsk" -> o[3] = FindSharedKeys(scopes, o[2])
    [] o[1] \in {"rm", "drop"} -> o[2] \in DOMAIN scopes /\ Alive(scopes, o[2])
    [] o[1] = "fail" -> TRUE
    [] OTHER -> FALSE

Effect(o) ==
  CASE o[1] = "new" -> [scopes EXCEPT ![o[2]] = [lo |-> o[3], hi |-> o[4], n |-> 1, data |-> 0, removed |-> FALSE, sk |-> o[5]]]
    [] o[1] = "find" -> (IF o[3] > 0 THEN AddHandle(scopes, o[3]) ELSE scopes)
    [] o[1] = "rm" -> Remove(scopes, o[2])
    [] o[1] = "drop" -> DropHandle(scopes, o[2])
    [] OTHER -> scopes

AllDone(p) == \A t \in Threads : p[t] > Len(Ops[t])

Next ==
  \E t \in Threads :
    /\ Pending(t)
    /\ UNCHANGED tid
    /\ IF held[t] > 0
       THEN /\ scopes' = DropHandle(scopes, held[t])
            /\ held' = [held EXCEPT ![t] = 0]
            /\ pos' = [pos EXCEPT ![t] = @ + 1]
       ELSE /\ Minimal(t)
            /\ Fits(Op(t))
            /\ LET o == Op(t)
                   i == IF o[1] = "fsk" THEN Containing(scopes, o[2]) ELSE 0
               IN  IF i > 0
                   THEN /\ scopes' = AddHandle(scopes, i)
                        /\ held' = [held EXCEPT ![t] = i]
                        /\ UNCHANGED pos
                   ELSE /\ scopes' = Effect(o)
                        /\ pos' = [pos EXCEPT ![t] = @ + 1]
                        /\ UNCHANGED held
    /\ AllDone(pos') => PrintT(<<"DONE", tid>>)

Spec == Init /\ [][Next]_vars

=============================================================================
