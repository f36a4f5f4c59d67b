------------------------------- MODULE MC_Num -------------------------------
(***************************************************************************)
(* Every spelling of a few small numbers in documents against every one in *)
(* queries, with every comparison.                                         *)
(***************************************************************************)
EXTENDS Cases

VARIABLES sign, whole, frac, exp, quoted      \* the number in the document

Wholes == {"0", "1", "10", "9", "00"}
Fracs == {"", ".0", ".5", ".05", ".50"}
Exps == IF Bound("EXPS", 0) = 1 THEN {"", "e0", "e1", "E-1", "e+2", "E00"} ELSE {"", "e1", "E-1"}

vars == <<sign, whole, frac, exp, quoted>>
(* the spelling grows from left to right *)
Init == sign \in {"", "-", "+"} /\ whole = "" /\ frac = "" /\ exp = "" /\ quoted \in BOOLEAN
Next ==
    \/ whole = "" /\ whole' \in Wholes /\ UNCHANGED <<sign, frac, exp, quoted>>
    \/ whole # "" /\ frac = "" /\ exp = "" /\ frac' \in Fracs \ {""} /\ UNCHANGED <<sign, whole, exp, quoted>>
    \/ whole # "" /\ exp = "" /\ exp' \in Exps \ {""} /\ UNCHANGED <<sign, whole, frac, quoted>>
Spec == Init /\ [][Next]_vars

Text == X(sign \o whole \o frac \o exp)
(* JSON numbers have no plus sign and no superfluous zeros *)
Possible == whole # "" /\ (quoted \/ (sign # "+" /\ whole # "00"))

QSigns == {"", "-"}
QWholes == {"0", "1", "10", "01"}
QNums == {X(sg \o wh \o fr) : sg \in QSigns, wh \in QWholes, fr \in Fracs}

(* the number times 10000, by counting *)
Digit == [d \in {"0", "1", "5", "9"} |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "5" -> 5 [] OTHER -> 9]
RECURSIVE IntOf(_)
IntOf(str) == IF str = "" THEN 0 ELSE IntOf(SubSeq(str, 1, Len(str) - 1)) * 10 + Digit[SubSeq(str, Len(str), Len(str))]
Thousandfold(sg, wh, fr, up) ==
    LET n == Len(fr)
        f == IF n <= 1 THEN 0 ELSE IntOf(SubSeq(fr, 2, n)) * (IF n = 2 THEN 10 ELSE 1)
        v == (IntOf(wh) * 100 + f) * (CASE up = -1 -> 10 [] up = 0 -> 100 [] up = 1 -> 1000 [] up = 2 -> 10000)
    IN IF sg = "-" THEN 0 - v ELSE v
Up == CASE exp = "E-1" -> -1 [] exp = "e1" -> 1 [] exp = "e+2" -> 2 [] OTHER -> 0

Counts ==
    whole # "" =>
    LET r == ReadNum(Text)
        me == Thousandfold(sign, whole, frac, Up)
    IN /\ r.ok
       /\ \A sg \in QSigns, wh \in QWholes, fr \in Fracs :
            LET o == ReadNum(X(sg \o wh \o fr)).v
                other == Thousandfold(sg, wh, fr, 0)
            IN CmpNum(r.v, o) = CmpInt(me, other)
       /\ ReadNum(PlainText(r.v)).v = r.v

Ops == <<":", ":<", ":<=", ":>", ":>=">>
QSeq == TLCEval(Listed(QNums))
Queries == TLCEval(ConcatAll([j \in 1..Len(Ops) |-> [i \in 1..Len(QSeq) |-> X("a") \o X(Ops[j]) \o QSeq[i]]]))
Ranges == <<X("a:><(0,1)"), X("a:><(-1,1)"), X("a:><(1,10)"), X("a:><(-10.5,-1)"), X("a:><(0.5,1.05)"), X("a:><(0.05,0.5)")>>

Cases ==
    Possible => Emit([k |-> "table", qs |-> Queries \o Ranges,
                      ds |-> <<Obj(<<Mem(X("a"), IF quoted THEN Str(Text) ELSE Num(Text))>>)>>])
=============================================================================
