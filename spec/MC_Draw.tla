------------------------------- MODULE MC_Draw -------------------------------
(***************************************************************************)
(* The drawing tool, step by step: it reads its arguments, takes the       *)
(* query, and only then opens the file and writes the drawing into it.     *)
(***************************************************************************)
EXTENDS Cases

VARIABLES query, name, place, phase, exit, target

Queries == {"a:1", "a:1 AND !b:\"x y\" OR c:exists", "a:", "a:>\"x\"", "a:/x\\d/", "a:\"&lt;\""}
Names == [svg |-> {"q.svg", "Q.SVG", "q.dot.svg"}, dot |-> {"q.dot", "q.svg.Dot"}, other |-> {"q.png", "q", "svg", "q.svg.bak"},
          default |-> {""}, usage |-> {""}]
vars == <<query, name, place, phase, exit, target>>
Ask == CHOOSE a \in DOMAIN Names : name[1] = a
Q == X(query)
Accepts == Submit(Q).k = "ok"
There == IF place = "old" THEN "old" ELSE "absent"

Init == /\ query \in Queries
        /\ \E a \in DOMAIN Names : \E f \in Names[a] : name = <<a, f>>
        /\ place \in {"fresh", "old"} \cup (IF name[1] \in {"svg", "dot"} THEN {"dir", "lost"} ELSE {})
        /\ phase = "start" /\ exit = -1 /\ target = There
Fail == phase' = "end" /\ exit' = 1 /\ UNCHANGED target
Arguments == phase = "start" /\ IF Ask = "usage" THEN Fail ELSE phase' = "query" /\ UNCHANGED <<exit, target>>
Take == phase = "query" /\ IF ~Accepts THEN Fail ELSE phase' = "form" /\ UNCHANGED <<exit, target>>
Choose == phase = "form" /\ IF Ask = "other" THEN Fail ELSE phase' = "open" /\ UNCHANGED <<exit, target>>
Draw == phase = "open" /\ IF place \in {"dir", "lost"} THEN Fail ELSE phase' = "end" /\ exit' = 0 /\ target' = "new"
Next == UNCHANGED <<query, name, place>> /\ (Arguments \/ Take \/ Choose \/ Draw)
Spec == Init /\ [][Next]_vars

(* a failure leaves everything as it was; nothing is written before the query is known to be one *)
Careful ==
    /\ (target = "new" => Accepts /\ exit = 0)
    /\ (phase = "end" /\ exit # 0 => target = There)
    /\ (phase = "end" => LET e == [k |-> "draw", q |-> Q, ask |-> Ask, place |-> place, exit |-> exit, told |-> TRUE, target |-> target,
                                   others |-> FALSE, r |-> "unreadable", g |-> <<>>] IN
         IF exit = 0 THEN JudgeDraw(e).k = "bad"
         ELSE /\ JudgeDraw(e).k = "ok"
              /\ JudgeDraw([e EXCEPT !.target = "new"]).k = "bad"
              /\ JudgeDraw([e EXCEPT !.exit = 0]).k = "bad")

Cases == phase = "start" => Emit([k |-> "draw", q |-> Q, name |-> name[2], ask |-> Ask, place |-> place])
=============================================================================
