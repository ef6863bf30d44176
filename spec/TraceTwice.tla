----------------------------- MODULE TraceTwice -----------------------------
(***************************************************************************)
(* A document depends on nothing but what was written: the calls which     *)
(* were accepted, in their order, and the shared keys at the beginning     *)
(* determine its bytes and the shared keys at the end; a value determines  *)
(* its serialization.                                                      *)
(*                                                                         *)
(* memo is the function which the executions of a trace must agree on.     *)
(*   <<"enc", pre, k>>     an encoder which appends to pre, with shared    *)
(*                         keys <<keys>>, or none                          *)
(*   <<call..., result>>   a call of the encoder                           *)
(*   <<"end", d, k>>       finishing gives d, and shared keys <<keys>> if  *)
(*                         known                                           *)
(*   <<"panic">>           finishing panicked                              *)
(*   <<"val", type, value, shared, r>>  serializing gives r: <<>> or       *)
(*                         <<<<d, keys>>>>                                 *)
(*   <<"z", event>>        as in TraceCodec                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Abbreviations, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, pos,
          pre, keys,  \* what the encoder appends to, and its shared keys at the beginning
          acc,        \* the calls which it accepted
          was,        \* the calls which the first encoder accepted
          memo,       \* sequence of <<what was written, what it gave>>
          rej
vars == <<tid, pos, pre, keys, acc, was, memo, rej>>

Ev == Traces[tid].ev
XE(e) ==
  CASE e[1] = "wv" -> <<e[1], XT(e[2]), e[3]>>
    [] e[1] = "bld" -> <<e[1], XT(e[2]), e[3]>>
    [] e[1] \in {"enc", "end"} -> <<e[1], XB(e[2]), e[3]>>
    [] OTHER -> e
E == LET e == Ev[pos] IN TLCEval(IF e[1] = "z" THEN XE(e[2]) ELSE e)

If(b, s) == IF b THEN {s} ELSE {}
Even(b) == IF Len(b) % 2 = 0 THEN b ELSE Append(b, 0)
Begins(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Appended(d) == SubSeq(d, Len(pre) + 1, Len(d))

\* What was found before for this, or <<>>
Before(what) == LET is == {i \in DOMAIN memo : memo[i][1] = what}
                IN  IF is = {} THEN <<>> ELSE <<memo[CHOOSE i \in is : TRUE][2]>>
Written == <<acc, keys>>

\* Documents, with shared keys if known
Agree(a, b) == a[1] = b[1] /\ (a[2] = <<>> \/ b[2] = <<>> \/ a[2] = b[2])

Call(e) == SubSeq(e, 1, Len(e) - 1)
Accepted(e) == e[Len(e)][1] = "ok"
Known == Before(Written)
Problems(e) ==
  CASE e[1] = "enc" -> {}
    [] e[1] = "panic" -> If(Known # <<>> /\ Known[1] # <<>>, "no-document")
    [] e[1] = "end" ->
         If(~Begins(pre, e[2]), "not-appended")
         \cup If(Begins(pre, e[2]) /\ Known # <<>> /\ (Known[1] = <<>> \/ ~Agree(Known[1], <<Appended(e[2]), e[3]>>)), "another-document")
    [] e[1] = "val" -> LET b == Before(<<e[2], e[3], e[4]>>) IN If(b # <<>> /\ b[1] # e[5], "another-serialization")
    [] OTHER -> If(~Accepted(e) /\ Begins(Append(acc, Call(e)), was), "refused-now")

Remember(what, gave) == memo' = IF Before(what) = <<>> THEN Append(memo, <<what, gave>>) ELSE memo

Init ==
  /\ tid \in 1..Len(Traces)
  /\ pos = 1
  /\ pre = <<>> /\ keys = <<>>
  /\ acc = <<>> /\ was = <<>>
  /\ memo = <<>>
  /\ rej = {}

Ended(gave) ==
  /\ Remember(Written, gave)
  /\ was' = IF was = <<>> THEN acc ELSE was
  /\ UNCHANGED <<pre, keys, acc>>

Step ==
  LET e == E
      p == TLCEval(Problems(e))
  IN  IF p # {}
      THEN /\ PrintT(<<"REJECT", tid, pos, p>>)
           /\ rej' = p
           /\ UNCHANGED <<tid, pos, pre, keys, acc, was, memo>>
      ELSE /\ pos' = pos + 1
           /\ UNCHANGED <<tid, rej>>
           /\ CASE e[1] = "enc" -> /\ pre' = Even(e[2]) /\ keys' = e[3]
                                   /\ acc' = <<>>
                                   /\ UNCHANGED <<was, memo>>
                [] e[1] = "end" -> Ended(<<Appended(e[2]), e[3]>>)
                [] e[1] = "panic" -> Ended(<<>>)
                [] e[1] = "val" -> Remember(<<e[2], e[3], e[4]>>, e[5]) /\ UNCHANGED <<pre, keys, acc, was>>
                [] OTHER -> /\ acc' = IF Accepted(e) THEN Append(acc, Call(e)) ELSE acc
                            /\ UNCHANGED <<pre, keys, was, memo>>

Next == rej = {} /\ pos <= Len(Ev) /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
