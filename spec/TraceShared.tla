----------------------------- MODULE TraceShared -----------------------------
(***************************************************************************)
(* Is every recorded history of shared-key sets one of SharedKeys?         *)
(*                                                                         *)
(* Events (h, g: numbers of sets, 1-based; a new set is always the next):  *)
(*   <<"new">>                    an empty set                             *)
(*   <<"ins", h, s, r>>           insertion; r the number, -1, -2 (panic)  *)
(*   <<"insm", h, ss, rs>>        many insertions                          *)
(*   <<"enc", h, s, r>>           <<"can", h, s, bool>>                    *)
(*   <<"dec", h, n, <<s>> or <<>>>>                                        *)
(*   <<"len", h, len, isEmpty>>   <<"iter", h, <<<<s, n>>, ...>>>>         *)
(*   <<"clone", h>>               the copy is a new set                    *)
(*   <<"save", h, how, r>>        saved and restored as a new set; r = 0   *)
(*                                worked, -1 gave nothing, -2 panicked     *)
(*   <<"rest", d, p, r>>          restoring from the value at p of         *)
(*                                document d, no array: r as for save      *)
(*   <<"rd", h, d, t>>            document d, read with set h, gives t     *)
(***************************************************************************)
EXTENDS SharedKeys, FleeceFormat, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, pos, sets, rej

vars == <<tid, pos, sets, rej>>

Ev == Traces[tid].ev
E == Ev[pos]
P(b, s) == IF b THEN {s} ELSE {}

\* Many insertions: <<the set afterwards, the numbers>>
RECURSIVE InsertMany(_, _, _, _)
InsertMany(set, ss, i, rs) ==
  IF i > Len(ss) THEN <<set, rs>>
  ELSE LET n == Inserted(set, ss[i]) IN InsertMany(n, ss, i + 1, Append(rs, Encode(n, ss[i])))
\* When they are all new, different, eligible and there is room, it is simple (and quick to evaluate).
AllNew(set, ss) ==
  /\ Len(set) + Len(ss) <= MaxKeys
  /\ Cardinality({ss[i] : i \in DOMAIN ss} \cup {set[i] : i \in DOMAIN set}) = Len(set) + Len(ss)
  /\ \A i \in DOMAIN ss : Eligible(ss[i])
Many(e) ==
  LET set == sets[e[2]]
      ss == e[3]
      room == IF Len(ss) > MaxKeys - Len(set) THEN MaxKeys - Len(set) ELSE Len(ss)
      these == SubSeq(ss, 1, room)
  IN  IF AllNew(set, these)
      THEN TLCEval(InsertMany(set \o these, SubSeq(ss, room + 1, Len(ss)), 1,
                              [i \in 1..room |-> Len(set) + i - 1]))
      ELSE TLCEval(InsertMany(set, ss, 1, <<>>))

IterProblems(set, it) ==
  P(Len(it) # Len(set) \/ {it[i] : i \in DOMAIN it} # {<<set[i], i - 1>> : i \in DOMAIN set}, "iter")

Problems(e) ==
  CASE e[1] \in {"new", "clone"} -> {}
    [] e[1] = "ins" -> P(~CharsKnown(e[3]), "unknown-character") \cup P(e[4] # InsertResult(sets[e[2]], e[3]), "insert")
    [] e[1] = "insm" -> P(e[4] # Many(e)[2], "insert-many")
    [] e[1] = "enc" -> P(e[4] # Encode(sets[e[2]], e[3]), "encode")
    [] e[1] = "can" -> P(~CharsKnown(e[3]), "unknown-character") \cup P(e[4] # CanAdd(sets[e[2]], e[3]), "can-add")
    [] e[1] = "dec" -> P(e[4] # Decode(sets[e[2]], e[3]), "decode")
    [] e[1] = "len" -> P(e[3] # Len(sets[e[2]]), "len") \cup P(e[4] # (sets[e[2]] = <<>>), "is-empty")
    [] e[1] = "iter" -> IterProblems(sets[e[2]], e[3])
    [] e[1] = "save" -> P(e[4] # 0, "save-and-restore")
    [] e[1] = "rest" -> P(e[4] # -1, "restore-from-no-state")
    [] e[1] = "rd" -> IF ~WellFormed(e[3], sets[e[2]]) THEN {"document-not-well-formed"}
                      ELSE P(Tree(e[3], sets[e[2]]) # e[4], "read-with-shared-keys")
    [] OTHER -> {"unknown-event"}

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ sets = <<>> /\ rej = {}

Effect(e) ==
  CASE e[1] = "new" -> Append(sets, <<>>)
    [] e[1] \in {"clone", "save"} -> Append(sets, sets[e[2]])
    [] e[1] = "ins" -> [sets EXCEPT ![e[2]] = Inserted(@, e[3])]
    [] e[1] = "insm" -> [sets EXCEPT ![e[2]] = Many(e)[1]]
    [] OTHER -> sets

Step ==
  LET e == E
      p == Problems(e)
  IN  IF p # {} THEN /\ PrintT(<<"REJECT", tid, pos, p>>)
                     /\ rej' = p
                     /\ UNCHANGED <<tid, pos, sets>>
      ELSE /\ pos' = pos + 1
           /\ sets' = Effect(e)
           /\ UNCHANGED <<tid, rej>>

Next == rej = {} /\ pos <= Len(Ev) /\ Step

Spec == Init /\ [][Next]_vars

=============================================================================
