----------------------------- MODULE MC_Advice -----------------------------
(***************************************************************************)
(* Regular expressions put together from words and .*, and what there is   *)
(* to say about them.                                                      *)
(***************************************************************************)
EXTENDS Cases

MaxPieces == Bound("PIECES", 3)

VARIABLES ps, outer, fold, op, alt

Words == {"ab", "Cd", "x"}
Init == ps = <<>> /\ outer \in BOOLEAN /\ fold \in {"", "(?i)", "(?s)"} /\ op \in {"", "~"} /\ alt \in BOOLEAN
Next ==
    /\ Len(ps) < MaxPieces
    /\ \E p \in Words \cup {".*"} :
         /\ (alt => p \notin {".*", "x"} /\ p \notin {ps[i] : i \in 1..Len(ps)})
         /\ (p = ".*" /\ ps # <<>> => ps[Len(ps)] # ".*")
         /\ ps' = Append(ps, p)
    /\ UNCHANGED <<outer, fold, op, alt>>
Spec == Init /\ [][Next]_<<ps, outer, fold, op, alt>>

RECURSIVE Joined(_, _)
Joined(i, between) == IF i > Len(ps) THEN "" ELSE (IF i > 1 THEN between ELSE "") \o ps[i] \o Joined(i + 1, between)
Body == (IF outer THEN "(" ELSE "") \o Joined(1, IF alt THEN "|" ELSE "") \o (IF outer THEN ")" ELSE "")
Text == X("f:" \o op \o "/" \o fold \o Body \o "/")
Whole == ps # <<>> /\ (alt => Len(ps) >= 2)

(* runs: neighbouring words are one *)
Runs == Cardinality({i \in 1..Len(ps) : i = 1 \/ ps[i] = ".*" \/ ps[i - 1] = ".*"})
N(b) == IF b THEN 1 ELSE 0
Hints ==
    N(~outer /\ ~alt /\ ((ps[1] = ".*" /\ fold # "(?s)") \/ ps[Len(ps)] = ".*"))   \* written at an end
    + N(outer)                                                      \* a group around everything
    + N(alt)                                                        \* a choice of words
    + N(~alt /\ Runs >= 2 /\ ps[1] = ".*")                          \* can be left out at the start
    + N(~alt /\ Runs >= 3 /\ ps[Len(ps)] = ".*")                    \* at the end
Told ==
    Whole =>
    LET r == Submit(Text)
        a == AdviceFor(r.n)
    IN /\ r.k = "ok" /\ a.k = "ok"
       /\ Len(a.ms) = Hints + N(op = "~")
       /\ Cardinality({i \in 1..Len(a.ms) : a.ms[i].ty = "WARNING"}) = N(op = "~")

Cases ==
    Whole => Emit([k |-> "advice", qs |-> <<Text, X("\"") \o <<233>> \o X("\":1 OR NOT (") \o Text \o X(" AND g:(\"x\",/ab.*/,2020-01-01T00:00:00Z))")>>])
=============================================================================
