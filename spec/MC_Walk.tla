------------------------------ MODULE MC_Walk ------------------------------
(***************************************************************************)
(* Every small query with every reaction of a visitor at every clause, and *)
(* a second visitor behind it.                                             *)
(***************************************************************************)
EXTENDS Cases

MaxLeaves == Bound("LEAVES", 2)
MaxSize == Bound("SIZE", 4)

VARIABLES f, re, ms          \* the query, the reactions so far, the messages so far

Leaves3 == {X("a:1"), X("b:(2,3)")}
RECURSIVE FSize(_)
FSize(g) == CASE g.t = "leaf" -> 1 [] g.t = "not" -> 1 + FSize(g.x) [] OTHER -> 1 + FSize(g.l) + FSize(g.r)

Reactions == {"go", "skip", "all", "perr", "err"}
Note(ty) == [ty |-> ty, t |-> X("%s at %%"), args |-> <<X(ty)>>, pos |-> <<1, 1, 0, 1>>]
Messages == IF Bound("MESSAGES", 0) = 1
            THEN {<<>>, <<Note("HINT")>>, <<Note("WARNING"), Note("HINT")>>, <<Note("ERROR")>>}
            ELSE {<<>>}

Init == f \in {Leaf(l) : l \in Leaves3} /\ re = <<>> /\ ms = <<>>
Next ==
    \/ re = <<>> /\ f' \in {g \in Grow(f, Leaves3) : Len(FLeaves(g)) <= MaxLeaves /\ FSize(g) <= MaxSize} /\ UNCHANGED <<re, ms>>
    \/ Len(re) < FSize(f)
       /\ \E r \in Reactions : \E m \in Messages : re' = Append(re, r) /\ ms' = Append(ms, m)
       /\ UNCHANGED f
Spec == Init /\ [][Next]_<<f, re, ms>>

Done == Len(re) = FSize(f)
Text == Written(f, 0)
Tree == Submit(Text).n
Quiet == [re |-> [i \in 1..FSize(f) |-> "go"], ms |-> [i \in 1..FSize(f) |-> <<Note("HINT")>>]]
Mine == [re |-> re, ms |-> ms]

(* the clauses in reading order with those they are inside of *)
RECURSIVE Inside(_, _, _)
Inside(g, i, above) ==
    {<<i, above>>} \cup
    (CASE g.t = "leaf" -> {}
       [] g.t = "not" -> Inside(g.x, i + 1, above \cup {i})
       [] OTHER -> Inside(g.l, i + 1, above \cup {i}) \cup Inside(g.r, i + 1 + FSize(g.l), above \cup {i}))

(* a clause is shown unless a clause around it was skipped or the walk ended before it *)
Order ==
    Done =>
    LET all == Inside(f, 1, {})
        open == {p[1] : p \in {q \in all : \A a \in q[2] : re[a] # "skip"}}
        stops == {i \in open : re[i] \in {"all", "perr", "err"}}
        end == IF stops = {} THEN FSize(f) ELSE CHOOSE i \in stops : \A j \in stops : i <= j
        want == {i \in open : i <= end}
        w == Visited(<<Mine, Quiet>>, Tree)
        got == w.seen[1]
        errs == {i \in want : \E k \in 1..Len(ms[i]) : ms[i][k].ty = "ERROR"}
    IN /\ {got[i] : i \in 1..Len(got)} = want /\ Len(got) = Cardinality(want)
       /\ \A i \in 1..(Len(got) - 1) : got[i] < got[i + 1]
       /\ (w.r \in {"perr", "err"}) = (stops # {} /\ re[end] \in {"perr", "err"})
       /\ (w.r = "ok") = (errs = {} /\ (stops = {} \/ re[end] = "all"))
       /\ (Len(w.seen[2]) = (IF w.r = "ok" THEN FSize(f) ELSE 0))

Cases == Done => Emit([k |-> "visit", q |-> Text, vs |-> <<Mine, Quiet>>])
=============================================================================
