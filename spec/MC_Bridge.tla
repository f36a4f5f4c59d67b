----------------------------- MODULE MC_Bridge -----------------------------
(***************************************************************************)
(* Queries as they are typed into a page, comparison by comparison, with   *)
(* characters of one and of two code units, complete and broken off.       *)
(***************************************************************************)
EXTENDS Cases

MaxPieces == Bound("PIECES", 3)

VARIABLES ps, tail

Pieces == {X("a:1"), X("\"") \o <<233>> \o X("\":exists"), X("f:\"") \o <<128512>> \o X("\""), X("f:/.*x/"), X("g:2020-01-01"),
           X("h:~/ab/"), X("d.e:(1,/(ab|cd)/)")}
Tails == {<<>>, X(" AND"), X(" OR b:>\"x\""), X(" AND \"") \o <<28450>>, X(" OR b:99999999999999999999"), X(" )") \o <<128512>>}
Init == ps = <<>> /\ tail = <<>>
Next == \/ tail = <<>> /\ Len(ps) < MaxPieces /\ \E p \in Pieces : ps' = Append(ps, p) /\ UNCHANGED tail
        \/ tail = <<>> /\ ps # <<>> /\ tail' \in Tails /\ UNCHANGED ps
Spec == Init /\ [][Next]_<<ps, tail>>

RECURSIVE Typed(_)
Typed(i) == IF i > Len(ps) THEN tail ELSE (IF i > 1 THEN X(" OR ") ELSE <<>>) \o ps[i] \o Typed(i + 1)
Text == Typed(1)
Whole == ps # <<>>

(* an answer made by the rules is right, and one with a range moved or a message left out is not *)
Answer(n) ==
    LET a == BridgeAll(Leaves(n), 1).ms IN
    [q |-> Text, r |-> "ok", b |-> -1, len |-> 0, up |-> TRUE, ast |-> "same",
     ms |-> [i \in 1..Len(a) |-> LET r == IF a[i].b = 0 THEN <<0, 1>> ELSE Range16(Text, a[i].b - 1, a[i].e - 1)
                                 IN [ty |-> BridgeKind(a[i].ty), s |-> r[1], e |-> r[2], told |-> TRUE]]]
Honest ==
    Whole =>
    LET s == Submit(Text) IN
    IF s.k = "ok"
    THEN LET e == Answer(s.n) IN
         /\ BridgeFlaw(e) = ""
         /\ BridgeFlaw([e EXCEPT !.ast = "none"]) # ""
         /\ (e.ms # <<>> => BridgeFlaw([e EXCEPT !.ms = Tail(@)]) # "")
         /\ \A i \in 1..Len(e.ms) : e.ms[i].s > 0 => BridgeFlaw([e EXCEPT !.ms[i].s = @ - 1]) # ""
    ELSE LET n == Len(Text)
             m == Range16(Text, n - 2, n)
             e == [q |-> Text, r |-> "err", b |-> n - 2, len |-> 2, up |-> TRUE, ast |-> "none", ms |-> <<[ty |-> "error", s |-> m[1], e |-> m[2], told |-> TRUE]>>]
         IN /\ BridgeFlaw(e) = ""
            /\ BridgeFlaw([e EXCEPT !.ms[1].e = @ + 1]) # ""
            /\ BridgeFlaw([e EXCEPT !.ast = "other"]) # ""
            /\ BridgeFlaw([e EXCEPT !.ms = @ \o @]) # ""

Cases == Whole => Emit([k |-> "bridge", qs |-> <<Text>>])
=============================================================================
