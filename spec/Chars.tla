------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Texts are sequences of Unicode code points.  Indices are 1-based, and   *)
(* one past the end there is EOT (-1), so that scanners need no bounds     *)
(* checks.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

EOT == -1
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE EOT

TAB == 9    LF == 10    CR == 13    SP == 32
BANG == 33  QUOTE == 34 HASH == 35  DOLLAR == 36 LPAR == 40  RPAR == 41
STAR == 42  PLUS == 43  COMMA == 44 MINUS == 45  DOT == 46   SLASH == 47
COLON == 58 LESS == 60  EQUALS == 61 GREATER == 62 QMARK == 63
LBRACK == 91 BSLASH == 92 RBRACK == 93 CARET == 94 USCORE == 95
LBRACE == 123 PIPE == 124 RBRACE == 125 TILDE == 126

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsLetter(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsLetter(c) \/ IsDigit(c)
IsWord(c) == IsAlnum(c) \/ c = USCORE
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
IsWs(c) == c = SP \/ c = LF \/ c = TAB \/ c = CR
IsAscii(c) == c >= 0 /\ c < 128
IsCJK(c) == c >= 19968 /\ c <= 40959

Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Upper(c) == IF IsLower(c) THEN c - 32 ELSE c
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE Lower(c) - 87

(* the code points other than ASCII letters that fold to ASCII letters *)
FoldsToAscii(c) == c \in {304, 305, 383, 8490}

(* number of bytes in UTF-8 *)
Bytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

AllOf(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
SomeOf(s, P(_)) == \E i \in 1..Len(s) : P(s[i])

(* the word w stands at position i of s *)
Has(s, i, w) == \A k \in 1..Len(w) : At(s, i + k - 1) = w[k]

RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF IsWs(At(s, i)) THEN SkipWs(s, i + 1) ELSE i

RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF IsDigit(At(s, i)) THEN SkipDigits(s, i + 1) ELSE i

NDigits(s, i, n) == \A k \in 0..(n - 1) : IsDigit(At(s, i + k))

(* value of the n digits at position i, n small *)
RECURSIVE NatAt(_, _, _)
NatAt(s, i, n) == IF n = 0 THEN 0 ELSE NatAt(s, i, n - 1) * 10 + (At(s, i + n - 1) - 48)

(* keywords *)
K_exists == <<101, 120, 105, 115, 116, 115>>
K_null   == <<110, 117, 108, 108>>
K_true   == <<116, 114, 117, 101>>
K_false  == <<102, 97, 108, 115, 101>>
K_AND    == <<65, 78, 68>>
K_OR     == <<79, 82>>
K_NOT    == <<78, 79, 84>>

(* decimal text of a small natural number *)
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))

MaxN(a, b) == IF a > b THEN a ELSE b
MinN(a, b) == IF a < b THEN a ELSE b

RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))

(* Answers: true, false, or not decided by this specification *)
T == "T"
F == "F"
U == "U"
Ans(b) == IF b THEN T ELSE F
NotA(a) == IF a = T THEN F ELSE IF a = F THEN T ELSE U
AndA(a, b) == IF a = F \/ b = F THEN F ELSE IF a = U \/ b = U THEN U ELSE T
OrA(a, b) == IF a = T \/ b = T THEN T ELSE IF a = U \/ b = U THEN U ELSE F
SomeA(s, f(_)) ==
    IF \E i \in 1..Len(s) : f(s[i]) = T THEN T
    ELSE IF \E i \in 1..Len(s) : f(s[i]) = U THEN U ELSE F
=============================================================================
