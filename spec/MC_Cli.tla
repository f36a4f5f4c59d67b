------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* The command-line tool, step by step: it takes the query, reads the      *)
(* document, matches and reports.                                          *)
(***************************************************************************)
EXTENDS Cases

VARIABLES query, inFile, doc, phase, exit, out, notes

Queries == {"a:1", "a:~\"x\"", "a:(1,\"x\") AND b:2020-01-01T00:00:00Z", "a:", "a:>\"x\"", "!(a:exists)", "a:/.*x/", "a:1 AND b:99999999999999999999"}
Docs == {"{\"a\":1}", "{\"a\":\"x\",\"b\":null}", "[{\"a\":1}]", "{\"a\":1", "", "none"}
vars == <<query, inFile, doc, phase, exit, out, notes>>

Q == X(query)
Accepts == Submit(Q).k = "ok"
Readable == doc # "none" /\ ValidJson(X(doc))

Init == /\ query \in Queries /\ inFile \in BOOLEAN /\ doc \in Docs
        /\ phase = "start" /\ exit = -1 /\ out = "-" /\ notes = <<>>
Take == phase = "start" /\ IF Accepts
        THEN phase' = "ready" /\ notes' = [i \in 1..Len(AdviceFor(Submit(Q).n).ms) |-> AdviceFor(Submit(Q).n).ms[i].ty] /\ UNCHANGED exit
        ELSE phase' = "end" /\ exit' = 1 /\ notes' = <<"ERROR">>
Read == phase = "ready" /\ UNCHANGED notes /\ IF Readable THEN phase' = "read" /\ UNCHANGED exit ELSE phase' = "end" /\ exit' = 1
Answer == phase = "read" /\ phase' = "end" /\ exit' = 0 /\ UNCHANGED notes
Next == /\ UNCHANGED <<query, inFile, doc>>
        /\ \/ (Take \/ Read) /\ UNCHANGED out
           \/ Answer /\ out' \in {"T", "F"}
Spec == Init /\ [][Next]_vars

(* what the tool says, with what the library says about the same query *)
Event ==
    [k |-> "cli", file |-> IF doc = "none" THEN "none" ELSE "read", exit |-> exit, res |-> out, extra |-> FALSE, st |-> <<>>, told |-> TRUE,
     kinds |-> notes, gap |-> 0, carets |-> 1,
     lib |-> [ok |-> Accepts, off |-> 0, r |-> IF ~Accepts \/ doc = "none" THEN "-" ELSE IF Readable THEN out ELSE "X", st |-> <<>>, kinds |-> notes]]
Said ==
    phase = "end" =>
      /\ (exit = 0) = (out # "-")
      /\ JudgeCli(Event).k = "ok"
      /\ JudgeCli([Event EXCEPT !.exit = 1 - exit]).k = "bad"
      /\ (exit = 0 => JudgeCli([Event EXCEPT !.res = IF out = "T" THEN "F" ELSE "T"]).k = "bad")

Cases == phase = "start" => Emit([k |-> "cli", q |-> Q, infile |-> inFile, none |-> doc = "none", b |-> IF doc = "none" THEN <<>> ELSE X(doc)])
=============================================================================
