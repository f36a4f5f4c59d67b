------------------------------ MODULE MC_Args ------------------------------
(***************************************************************************)
(* Every comparison with up to three values from a pool, and which of them *)
(* make sense.                                                             *)
(***************************************************************************)
EXTENDS Cases

MaxValues == Bound("VALUES", 2)

VARIABLES op, ls

L(txt, ty, is, rank) == [txt |-> txt, ty |-> ty, is |-> is, rank |-> rank]
(* is: two values with the same `is' are the same; rank: their order *)
Pool == {
    L("1", "num", "1", 10), L("1.0", "num", "1", 10), L("-1", "num", "-1", -10), L("2.5", "num", "2.5", 25), L("2.50", "num", "2.5", 25),
    L("2020-01-01", "time", "d", 0), L("2020-01-01T00:00:00Z", "time", "z", 0), L("2020-01-02", "time", "e", 1),
    L("\"a\"", "text", "a", 0), L("\"\\u0061\"", "text", "a", 0), L("\"1\"", "text", "q1", 0),
    L("/a/", "regex", "ra", 0), L("true", "bool", "t", 0), L("false", "bool", "f", 0),
    L("10.0.0.1", "net", "h", 0), L("10.0.0.1/32", "net", "h", 0), L("10.0.0.0/8", "net", "n", 0)}
Ops == {"", "~", "<", "<=", ">", ">=", "><"}

Init == op \in Ops /\ ls = <<>>
Next == Len(ls) < MaxValues /\ \E l \in Pool : ls' = Append(ls, l) /\ UNCHANGED op
Spec == Init /\ [][Next]_<<op, ls>>

TypesFor == IF op = "" THEN {"num", "time", "text", "regex", "bool", "net"}
            ELSE IF op = "~" THEN {"text", "regex", "bool"} ELSE {"num", "time"}
NumbersFor == IF op \in {"", "~"} THEN 1..99 ELSE IF op = "><" THEN {2} ELSE {1}
Distinct(xs) == \A i \in 1..Len(xs) : \A j \in 1..Len(xs) : i # j => xs[i].is # xs[j].is
Consistent(xs) == op # "" \/ ~(\E i \in 1..Len(xs) : \E j \in 1..Len(xs) : xs[i].is = "t" /\ xs[j].is = "f")
Ordered(xs) == op # "><" \/ (xs[1].ty = xs[2].ty /\ xs[1].rank < xs[2].rank)
Sensible(xs) ==
    /\ \A i \in 1..Len(xs) : xs[i].ty \in TypesFor
    /\ Len(xs) \in NumbersFor
    /\ Distinct(xs) /\ Consistent(xs)
    /\ Ordered(xs)

RECURSIVE Joined(_, _)
Joined(xs, i) == IF i > Len(xs) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o xs[i].txt \o Joined(xs, i + 1)
TextOf(o, xs) == "f:" \o o \o (IF Len(xs) = 1 THEN xs[1].txt ELSE "(" \o Joined(xs, 1) \o ")")
Text == X(TextOf(op, ls))

(* the value to blame in a set is the first one that does not go with those before it *)
Blamed ==
    LET fail == {i \in 1..Len(ls) : ~Sensible(SubSeq(ls, 1, i))}
    IN CHOOSE i \in fail : \A j \in fail : i <= j
StartOf(i) == Len(X(TextOf(op, SubSeq(ls, 1, i)))) - (IF i > 1 THEN 1 ELSE 0) - Len(X(ls[i].txt)) + (IF i = 1 /\ Len(ls) > 1 THEN 2 ELSE 1)

Makes ==
    ls # <<>> =>
    LET r == Submit(Text) IN
    /\ ParseText(Text).k = "ok"
    /\ (r.k = "ok") = Sensible(ls)
    /\ (op = "" /\ r.k # "ok") => r.k = "arg" /\ r.b = StartOf(Blamed)

Cases ==
    ls # <<>> =>
    Emit([k |-> "parse", qs |-> <<Text, X("(a:1 OR NOT ") \o Text \o X(")"), <<LF>> \o X("\"") \o <<228>> \o X("\":1 AND ") \o <<LF, SP>> \o Text>>])
=============================================================================
