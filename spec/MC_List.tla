------------------------------ MODULE MC_List ------------------------------
(***************************************************************************)
(* Every set of up to three members of a pool of values of all types, in   *)
(* every order, and the values it is compared with.                        *)
(***************************************************************************)
EXTENDS Cases

MaxMembers == Bound("MEMBERS", 2)

VARIABLE ms

Pool == {"1", "2.5", "true", "false", "\"a b\"", "\"1\"", "/^a/", "/1$/", "/(?i)c/", "/Z|y/", "2020-01-01", "10.0.0.0/8"}
Docs == <<Num(X("1")), Num(X("2.50")), Str(X("1")), Str(X("x 1")), Str(X("a b")), Str(X("abc")), Str(X("AX")), Str(X("C")), Str(X("Yz")), Str(X("xy")), Str(X("2020-01-01 10:00:00")),
          Str(X("10.1.2.3")), Str(X("true")), Boo(TRUE), Boo(FALSE), Nul, Arr(<<>>), Arr(<<Nul, Num(X("2.5")), Boo(FALSE)>>),
          Arr(<<Str(X("zzz")), Str(X("1"))>>)>>

Init == ms = <<>>
Next == /\ Len(ms) < MaxMembers
        /\ \E p \in Pool \ {ms[i] : i \in 1..Len(ms)} : ms' = Append(ms, p)
Spec == Init /\ [][Next]_ms

RECURSIVE Joined(_, _)
Joined(xs, i) == IF i > Len(xs) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o xs[i] \o Joined(xs, i + 1)
ListText(op, xs) == X("a" \o op \o (IF Len(xs) = 1 THEN xs[1] ELSE "(" \o Joined(xs, 1) \o ")"))
Both == \E i \in 1..Len(ms) : \E j \in 1..Len(ms) : ms[i] = "true" /\ ms[j] = "false"
\* the number 1 and the string "1" print differently, but not "1" and 1
Texty == \A i \in 1..Len(ms) : ms[i] \in {"true", "false", "\"a b\"", "\"1\"", "/^a/", "/1$/", "/(?i)c/", "/Z|y/"}

(* a list means one of its members; it is rejected only for contradicting itself *)
OrAll(as) == IF \E i \in 1..Len(as) : as[i] = T THEN T ELSE IF \E i \in 1..Len(as) : as[i] = U THEN U ELSE F
Union ==
    ms # <<>> =>
    LET r == Submit(ListText(":", ms)) IN
    /\ (r.k = "ok") = ~Both
    /\ (r.k = "ok" =>
          \A d \in 1..Len(Docs) :
             LET doc == Obj(<<Mem(X("a"), Docs[d])>>) IN
             Eval(r.n, doc) = OrAll([i \in 1..Len(ms) |-> Eval(Submit(ListText(":", <<ms[i]>>)).n, doc)]))
    /\ (Submit(ListText(":~", ms)).k = "ok") = Texty

Cases ==
    ms # <<>> /\ ~Both =>
    Emit([k |-> "set", q |-> ListText(":", ms), parts |-> [i \in 1..Len(ms) |-> ListText(":", <<ms[i]>>)],
          twin |-> IF Texty THEN ListText(":~", ms) ELSE <<>>,
          docs |-> [d \in 1..Len(Docs) |-> Obj(<<Mem(X("a"), Docs[d])>>)]])
=============================================================================
