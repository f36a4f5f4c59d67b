------------------------------- MODULE MC_Net -------------------------------
(***************************************************************************)
(* Blocks of addresses around each other: every prefix length of a few     *)
(* addresses on both sides.                                                *)
(***************************************************************************)
EXTENDS Cases

VARIABLES addr, bits, dress        \* the value in the document

Addresses == {<<10, 0, 0, 1>>, <<10, 0, 0, 0>>, <<10, 128, 0, 255>>, <<138, 0, 0, 1>>, <<255, 255, 255, 255>>, <<0, 0, 0, 0>>, <<10, 0, 1, 128>>}
Lengths == {0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32}
(* what is around it in the text *)
Dresses == {<<"", "">>, <<"from ", " on">>, <<"x", "y">>, <<"(", ").">>, <<"10.9 ", "">>, <<"", ", 300.1.1.1">>}

Init == addr \in Addresses /\ bits = -1 /\ dress = <<"", "">>
Next ==
    \/ bits = -1 /\ bits' \in Lengths /\ UNCHANGED <<addr, dress>>
    \/ dress = <<"", "">> /\ dress' \in Dresses \ {dress} /\ UNCHANGED <<addr, bits>>
Spec == Init /\ [][Next]_<<addr, bits, dress>>

AddrText(a) == NatText(a[1]) \o <<DOT>> \o NatText(a[2]) \o <<DOT>> \o NatText(a[3]) \o <<DOT>> \o NatText(a[4])
BlockText(a, n) == IF n < 0 THEN AddrText(a) ELSE AddrText(a) \o <<SLASH>> \o NatText(n)
Text == X(dress[1]) \o BlockText(addr, bits) \o X(dress[2])
Eff(n) == IF n < 0 THEN 32 ELSE n

(* addresses as 32 bits; a block is the addresses from its first to its last *)
BitsOf(a) == [k \in 1..32 |-> (a[(k - 1) \div 8 + 1] \div Pow2(7 - ((k - 1) % 8))) % 2]
First(a, n) == [k \in 1..32 |-> IF k <= n THEN BitsOf(a)[k] ELSE 0]
Last(a, n) == [k \in 1..32 |-> IF k <= n THEN BitsOf(a)[k] ELSE 1]
RECURSIVE Below(_, _, _)
Below(x, y, k) == k > 32 \/ x[k] < y[k] \/ (x[k] = y[k] /\ Below(x, y, k + 1))
AtMost(x, y) == Below(x, y, 1)
Blocks == Addresses \X (Lengths \cup {-1})
Firsts == TLCEval([o \in Blocks |-> First(o[1], Eff(o[2]))])
Lasts == TLCEval([o \in Blocks |-> Last(o[1], Eff(o[2]))])
Meeting == TLCEval([o \in Blocks |-> [p \in Blocks |-> AtMost(Firsts[o], Lasts[p]) /\ AtMost(Firsts[p], Lasts[o])]])

Intervals ==
    \A o \in Blocks :
        LET net == [o |-> o[1], bits |-> Eff(o[2])]
            me == [o |-> addr, bits |-> Eff(bits)]
        IN /\ Overlap(me, net) = Meeting[<<addr, bits>>][o]
           /\ Overlap(me, net) = Overlap(net, me)
           /\ NetIn(Text, net) = Ans(Overlap(me, net))

Queries == TLCEval(Listed({X("a:") \o BlockText(o[1], o[2]) : o \in Blocks}))
Cases == Emit([k |-> "table", qs |-> Queries, ds |-> <<Obj(<<Mem(X("a"), Str(Text))>>)>>])
=============================================================================
