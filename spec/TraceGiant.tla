----------------------------- MODULE TraceGiant -----------------------------
(***************************************************************************)
(* Documents as large as references can reach. The machine is that of      *)
(* FleeceEncoder, but a legal call may also be refused when the document   *)
(* could become too large; then it has no effect, like any other refused   *)
(* call. Nothing else may come of size: every document which is finished   *)
(* is the one which the accepted calls wrote.                              *)
(*                                                                         *)
(* Also collections of very many elements.                                 *)
(*                                                                         *)
(* A string or data is <<mi, rest, c>>: mi * 2^20 + rest bytes, all c.     *)
(***************************************************************************)
EXTENDS FleeceEncoder, Integers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, pos, st,
          size,   \* at least as many KiB as the document takes
          rej
vars == <<tid, pos, st, size, rej>>

Ev == Traces[tid].ev
If(b, s) == IF b THEN {s} ELSE {}

\* Of 30 bits
ReachKiB == 1048576
KiB(n) == n[1] * 1024 + n[2] \div 1024 + 1
RECURSIVE CostOf(_), SumOf(_, _)
SumOf(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumOf(f, n - 1)
CostOf(t) == CASE t[1] \in {"str", "data"} -> 1 + KiB(t[2])
               [] t[1] = "arr" -> 1 + SumOf(LAMBDA i : CostOf(t[2][i]), Len(t[2]))
               [] t[1] = "dict" -> 1 + SumOf(LAMBDA i : 1 + KiB(t[2][i][1]) + CostOf(t[2][i][2]), Len(t[2]))
               [] OTHER -> 1
Cost(c) == CASE c[1] = "wk" -> 1 + KiB(c[2])
             [] c[1] \in {"wv", "wf"} -> CostOf(c[2])
             [] OTHER -> 1

Call(e) == SubSeq(e, 1, Len(e) - 1)
Res(e) == e[Len(e)]
TooLarge(e) == Res(e)[1] = "err" /\ Res(e)[2] = "PointerTooLarge"

\* The entries of a dict in any order
RECURSIVE Canon(_)
Canon(t) ==
  IF t[1] = "arr" THEN <<"arr", [i \in DOMAIN t[2] |-> Canon(t[2][i])]>>
  ELSE IF t[1] = "dict" THEN <<"dict", Len(t[2]), {<<t[2][i][1], Canon(t[2][i][2])>> : i \in DOMAIN t[2]}>>
  ELSE t
Canons(d) == [i \in DOMAIN d |-> Canon(d[i])]

Problems(e) ==
  CASE e[1] = "new" -> {}
    \* n elements which are a function of their index: as many as said, iterated, found, nothing else, the hint
    [] e[1] = "ramp" -> If(e[4] # <<e[2], e[2], e[2], 0, e[2]>>, "elements")
    [] e[1] = "fin" -> If(Canons(e[2]) # Canons(Finished(st)), "another-document")
    [] OTHER ->
         If(Res(e)[1] = "panic", "panic")
         \cup If(Res(e)[1] = "ok" /\ ~Legal(st, Call(e)), "accepted")
         \cup If(Res(e)[1] = "err" /\ Legal(st, Call(e))
                   /\ ~(TooLarge(e) /\ Call(e)[1] \in {"wv", "wf", "wk", "ba", "bd"} /\ size + Cost(Call(e)) > ReachKiB), "refused")

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ st = EmptyEncoder /\ size = 1 /\ rej = {}

Step ==
  LET e == Ev[pos]
      p == TLCEval(Problems(e))
  IN  IF p # {}
      THEN /\ PrintT(<<"REJECT", tid, pos, p>>)
           /\ rej' = p
           /\ UNCHANGED <<tid, pos, st, size>>
      ELSE /\ pos' = pos + 1
           /\ UNCHANGED <<tid, rej>>
           /\ IF e[1] \in {"new", "fin", "ramp"} \/ Res(e)[1] # "ok" THEN UNCHANGED <<st, size>>
              ELSE st' = After(st, Call(e)) /\ size' = size + Cost(Call(e))

Next == rej = {} /\ pos <= Len(Ev) /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
