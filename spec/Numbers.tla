------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* Decimal numbers of any size.  A number is [neg, ds, ex]: the value      *)
(* 0.d1d2d3... * 10^ex where d1 # 0 and the last digit # 0; zero has no    *)
(* digits.                                                                 *)
(***************************************************************************)
EXTENDS Chars

Zero == [neg |-> FALSE, ds |-> <<>>, ex |-> 0]

RECURSIVE DropZerosLeft(_, _)
DropZerosLeft(ds, i) == IF i <= Len(ds) /\ ds[i] = 0 THEN DropZerosLeft(ds, i + 1) ELSE i
RECURSIVE DropZerosRight(_, _)
DropZerosRight(ds, i) == IF i >= 1 /\ ds[i] = 0 THEN DropZerosRight(ds, i - 1) ELSE i

(* digits ds with the decimal point after the first p of them *)
MkNum(neg, ds, p) ==
    LET i == DropZerosLeft(ds, 1)
        j == DropZerosRight(ds, Len(ds))
    IN IF i > Len(ds) THEN Zero
       ELSE [neg |-> neg, ds |-> SubSeq(ds, i, j), ex |-> p - (i - 1)]

DigitsOf(s, a, b) == [k \in 1..(b - a) |-> s[a + k - 1] - 48]

(* A decimal literal [+-] digits [. digits] [e [+-] digits], with at least one
   digit before or after the point (the spellings Go reads as a decimal float;
   JSON and AQL numbers are among them).  Yields [ok, v]. *)
NoNum == [ok |-> FALSE, v |-> Zero]
ReadNum(s) ==
    LET i0 == IF At(s, 1) \in {PLUS, MINUS} THEN 2 ELSE 1
        i1 == SkipDigits(s, i0)
        i2 == IF At(s, i1) = DOT THEN SkipDigits(s, i1 + 1) ELSE i1
        nd == (i1 - i0) + (IF i2 > i1 THEN i2 - i1 - 1 ELSE 0)
        hasE == At(s, i2) \in {69, 101}
        e0 == i2 + 1
        e1 == IF At(s, e0) \in {PLUS, MINUS} THEN e0 + 1 ELSE e0
        e2 == SkipDigits(s, e1)
        ds == DigitsOf(s, i0, i1) \o (IF i2 > i1 THEN DigitsOf(s, i1 + 1, i2) ELSE <<>>)
        exv == IF hasE THEN (IF At(s, e0) = MINUS THEN 0 - NatAt(s, e1, e2 - e1) ELSE NatAt(s, e1, e2 - e1)) ELSE 0
    IN IF nd = 0 THEN NoNum
       ELSE IF hasE /\ (e2 = e1 \/ e2 - e1 > 3) THEN NoNum
       ELSE IF (IF hasE THEN e2 ELSE i2) # Len(s) + 1 THEN NoNum
       ELSE [ok |-> TRUE, v |-> MkNum(At(s, 1) = MINUS, ds, (i1 - i0) + exv)]

(* Within these limits binary floats order decimals like the decimals themselves. *)
Exact(v) == Len(v.ds) <= 15 /\ v.ex > -290 /\ v.ex < 300

(* Spellings outside of ReadNum that Go may still read as a number:
   hexadecimal ones, those with underscores or a long exponent, infinities *)
Odd(s) ==
    LET i == IF At(s, 1) \in {PLUS, MINUS} THEN 2 ELSE 1
        rest == [k \in 1..(Len(s) - i + 1) |-> Lower(s[k + i - 1])]
        all(from, set) == \A k \in from..Len(rest) : rest[k] \in set
        dec == 48..57 \cup {DOT, PLUS, MINUS, USCORE}
    IN \/ all(1, dec \cup {101}) /\ \E k \in 2..Len(rest) : rest[k] = USCORE \/ (rest[k] = 101 /\ Len(rest) - k > 3)
       \/ Len(rest) > 2 /\ rest[1] = 48 /\ rest[2] = 120 /\ all(3, dec \cup 97..102 \cup {112})
       \/ rest \in {<<105, 110, 102>>, <<110, 97, 110>>, <<105, 110, 102, 105, 110, 105, 116, 121>>}

RECURSIVE CmpDs(_, _, _)
CmpDs(a, b, i) ==
    IF i > Len(a) /\ i > Len(b) THEN 0
    ELSE IF i > Len(a) THEN -1
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpDs(a, b, i + 1)

CmpMag(a, b) ==
    IF a.ds = <<>> \/ b.ds = <<>> THEN (IF a.ds = b.ds THEN 0 ELSE IF a.ds = <<>> THEN -1 ELSE 1)
    ELSE IF a.ex < b.ex THEN -1 ELSE IF a.ex > b.ex THEN 1
    ELSE CmpDs(a.ds, b.ds, 1)

(* -1, 0 or 1 *)
CmpNum(a, b) ==
    IF a.neg /\ ~b.neg THEN -1
    ELSE IF ~a.neg /\ b.neg THEN 1
    ELSE IF a.neg THEN CmpMag(b, a) ELSE CmpMag(a, b)

(* Two numbers so far apart that binary floats tell them apart: more than one
   part in 10^14, and not both next to zero. *)
Apart(a, b) ==
    LET c == CmpMag(a, b)
        x == IF c < 0 THEN b ELSE a            \* the larger
        y == IF c < 0 THEN a ELSE b
        dig(v, i) == IF i <= Len(v.ds) THEN v.ds[i] ELSE 0
        i == CHOOSE k \in 1..(Len(x.ds) + Len(y.ds) + 1) : dig(x, k) # dig(y, k) /\ \A j \in 1..(k - 1) : dig(x, j) = dig(y, j)
    IN CmpNum(a, b) # 0 /\ x.ds # <<>> /\ x.ex > -290
       /\ \/ a.neg # b.neg \/ y.ds = <<>> \/ x.ex > y.ex + 1
          \/ x.ex = y.ex + 1 /\ (x.ds[1] > 1 \/ y.ds[1] < 9)
          \/ x.ex = y.ex /\ i <= 12 /\ (dig(x, i) > dig(y, i) + 1 \/ dig(x, i + 1) # 0 \/ dig(y, i + 1) # 9)

(* how a comparison of two numbers comes out if they are turned into binary
   floats: "und" if it depends on these being equal *)
Compared(rel(_), a, b) ==
    LET c == CmpNum(a, b) IN
    IF c = 0 \/ (Exact(a) /\ Exact(b)) \/ Apart(a, b) \/ rel(c) = rel(0) THEN (IF rel(c) THEN "yes" ELSE "no") ELSE "und"

(* 64-bit signed integers *)
MaxInt64 == [neg |-> FALSE, ds |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>, ex |-> 19]
MinInt64 == [neg |-> TRUE,  ds |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>, ex |-> 19]
IsInt64(v) == CmpNum(MinInt64, v) <= 0 /\ CmpNum(v, MaxInt64) <= 0

(* the plain decimal spelling: no exponent, no superfluous zeros *)
PlainText(v) ==
    LET n == Len(v.ds)
        sign == IF v.neg THEN <<MINUS>> ELSE <<>>
        dig(a, b) == [k \in 1..(b - a + 1) |-> 48 + v.ds[a + k - 1]]
        zeros(k) == [j \in 1..k |-> 48]
    IN IF n = 0 THEN <<48>>
       ELSE IF v.ex >= n THEN sign \o dig(1, n) \o zeros(v.ex - n)
       ELSE IF v.ex <= 0 THEN sign \o <<48, DOT>> \o zeros(0 - v.ex) \o dig(1, n)
       ELSE sign \o dig(1, v.ex) \o <<DOT>> \o dig(v.ex + 1, n)

(* a zero written with a minus sign: its plain spelling is left undecided *)
NegZero(s, v) == v.ds = <<>> /\ At(s, 1) = MINUS

(* op \in {"<", "<=", ">", ">=", "=="} applied to a three-way comparison *)
Rel(op, c) ==
    CASE op = "<"  -> c < 0
      [] op = "<=" -> c <= 0
      [] op = ">"  -> c > 0
      [] op = ">=" -> c >= 0
      [] op = "==" -> c = 0
=============================================================================
