----------------------------- MODULE TraceCodec -----------------------------
(***************************************************************************)
(* Is every recorded execution of the codec a behaviour of the             *)
(* specification?                                                          *)
(*                                                                         *)
(* The trace file has one JSON object per line: n (name), ev (the events). *)
(* Every trace is one initial state; each event must be the corresponding  *)
(* step of FleeceEncoder, FleeceFormat or FleeceReads.  Events:            *)
(*   <<"new", pre>>        an encoder which appends to the bytes pre       *)
(*   <<call..., result>>   a call of FleeceEncoder                         *)
(*   <<"fin", f>>          finishing gives the document f.d (with shared   *)
(*                         keys f.sk), and reading it gives f.r            *)
(*   <<"mac", tokens>>     the fleece! literal of these tokens (MacroLit)   *)
(*   <<"finv", r>>         finish_value of the same calls; reads r         *)
(*   <<"doc", f>>          a document from elsewhere: f.d, f.sk, f.res the *)
(*                         result of validating it, f.r its reads          *)
(*   <<"fz", d, c, w>>     untrusted bytes d: c is 0 rejected, 1 accepted,  *)
(*                         2 validation panicked, 3 reading panicked, 4    *)
(*                         the answer depends on where d is; w is <<>> or  *)
(*                         <<what was read>>                               *)
(*   <<"src", f>>          f.d, f.sk: the document which the values of     *)
(*                         following "wf" calls come from; wf by position  *)
(*   <<"z", event>>        an event in which long runs of bytes are        *)
(*                         abbreviated                                     *)
(* A result is <<"ok">>, <<"err", name>> or <<"panic", message>>.          *)
(***************************************************************************)
EXTENDS MacroLit, FleeceFormat, FleeceReads, Abbreviations, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid,   \* the trace
          pos,   \* the next event
          st,    \* the encoder
          pre,   \* what the encoder appends to
          src,   \* number of the event holding the source document of write_fleece, or 0
          rej    \* why the event at pos is no step of the specification

vars == <<tid, pos, st, pre, src, rej>>

Ev == Traces[tid].ev

XE(e) ==
  CASE e[1] \in {"wv", "bld"} -> <<e[1], XT(e[2]), e[3]>>
    [] e[1] = "wvs" -> <<e[1], TLCEval([i \in DOMAIN e[2] |-> XT(e[2][i])]), e[3]>>
    [] e[1] = "fin" -> <<"fin", [e[2] EXCEPT !.d = XB(@),
                                            !.r.walks = TLCEval([i \in DOMAIN @ |-> XT(@[i])])]>>
    [] OTHER -> e
E == LET e == Ev[pos] IN TLCEval(IF e[1] = "z" THEN XE(e[2]) ELSE e)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Even(b) == IF Len(b) % 2 = 0 THEN b ELSE Append(b, 0)

IsOk(r) == r[1] = "ok"
IsErr(r) == r[1] = "err"
ResultProblems(legal, r) ==
  IF legal THEN If(~IsOk(r), "legal-call-failed")
  ELSE If(~IsErr(r), "illegal-call-not-refused")

\* A tree written must be the tree read, up to the order of dict entries.
FinProblems(f) ==
  LET root == Finished(st)
      d == f.d
      strict == ~HasDupKeys(root[1])
      sev == DocSev(d, f.sk)
      t == Tree(d, f.sk)
  IN  If(~IsOk(f.res), "finish-failed")
      \cup IF ~IsOk(f.res) THEN {}
           ELSE IF root = <<>> THEN If(Len(d) # 0 /\ ~IsPrefixOf(pre, d), "not-appended")
           ELSE If(~IsPrefixOf(pre, d), "not-appended")
                \cup IF sev > (IF strict THEN 0 ELSE 1) THEN {"not-well-formed"}
                     ELSE If(Norm(t) # Norm(root[1]), "wrong-document")
                          \cup ReadProblems(t, f.r)

FinvProblems(r) ==
  LET root == Finished(st)
  IN  If(r[1] = "panic", "finish-value-panicked")
      \cup If(r[1] # "panic" /\ Norm(r) # Norm(root[1]), "wrong-value")

DocProblems(f) ==
  LET sev == DocSev(f.d, f.sk)
      t == Tree(f.d, f.sk)
  IN  If(~IsOk(f.res) /\ ~IsErr(f.res), "panicked")
      \cup If(sev = 2 /\ IsOk(f.res), "invalid-accepted")
      \cup If(sev = 0 /\ IsErr(f.res), "well-formed-rejected")
      \cup IF sev = 0 /\ IsOk(f.res) THEN ReadProblems(t, f.r) ELSE {}

FuzzProblems(d, code, w) ==
  LET sev == DocSev(d, <<>>)
  IN  CASE code = 0 -> If(sev = 0, "well-formed-rejected")
        [] code = 1 -> If(sev = 2, "invalid-accepted")
                       \cup IF sev = 0 THEN If(w[1] # Tree(d, <<>>), "wrong-reading") ELSE {}
        [] code = 2 -> {"validation-panicked"}
        [] code = 3 -> {"reading-panicked"}
        [] OTHER -> {"reading-depends-on-the-place"}

Source == LET f == Ev[src][2] IN Tree(f.d, f.sk)
\* The call of an event; write_fleece names its value by its position in the source document.
Call(e) == IF e[1] = "wf" THEN <<"wf", Node(Source, e[2])>> ELSE SubSeq(e, 1, Len(e) - 1)

Problems(e) ==
  CASE e[1] \in {"new", "src", "mac"} -> {}
    [] e[1] = "fin" -> FinProblems(e[2])
    [] e[1] = "finv" -> FinvProblems(e[2])
    [] e[1] = "doc" -> DocProblems(e[2])
    [] e[1] = "fz" -> FuzzProblems(e[2], e[3], e[4])
    [] OTHER -> ResultProblems(Legal(st, Call(e)), e[Len(e)])

Init ==
  /\ tid \in 1..Len(Traces)
  /\ pos = 1
  /\ st = EmptyEncoder
  /\ pre = <<>>
  /\ src = 0
  /\ rej = {}

Step ==
  LET e == E
      p == Problems(e)
  IN  IF p # {}
      THEN /\ PrintT(<<"REJECT", tid, pos, p>>)
           /\ rej' = p
           /\ UNCHANGED <<tid, pos, st, pre, src>>
      ELSE /\ pos' = pos + 1
           /\ CASE e[1] = "new" -> /\ st' = EmptyEncoder
                                   /\ pre' = Even(e[2])
                                   /\ UNCHANGED src
                [] e[1] = "mac" -> st' = Expanded(st, e[2], 1) /\ UNCHANGED <<pre, src>>
                [] e[1] = "src" -> src' = pos /\ UNCHANGED <<st, pre>>
                [] e[1] \in {"fin", "finv", "doc", "fz"} -> UNCHANGED <<st, pre, src>>
                [] OTHER -> st' = After(st, Call(e)) /\ UNCHANGED <<pre, src>>
           /\ UNCHANGED <<tid, rej>>

Next == rej = {} /\ pos <= Len(Ev) /\ Step

Spec == Init /\ [][Next]_vars

Accepted == rej = {}

=============================================================================
