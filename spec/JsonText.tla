------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* Which byte strings are JSON documents (RFC 8259; bytes are not required *)
(* to be UTF-8).  Scanners yield the position after what they scan, or 0.  *)
(***************************************************************************)
EXTENDS Numbers, TLC

RECURSIVE JStrEnd(_, _)
JStrEnd(s, i) ==
    LET c == At(s, i) IN
    IF c = QUOTE THEN i + 1
    ELSE IF c < 32 THEN 0
    ELSE IF c = BSLASH
    THEN IF At(s, i + 1) \in {QUOTE, BSLASH, SLASH, 98, 102, 110, 114, 116} THEN JStrEnd(s, i + 2)
         ELSE IF At(s, i + 1) = 117 /\ (\A k \in 2..5 : IsHex(At(s, i + k))) THEN JStrEnd(s, i + 6)
         ELSE 0
    ELSE JStrEnd(s, i + 1)

JNumEnd(s, i) ==
    LET a == IF At(s, i) = MINUS THEN i + 1 ELSE i
        b == IF At(s, a) = 48 THEN a + 1 ELSE IF IsDigit(At(s, a)) THEN SkipDigits(s, a) ELSE 0
        c == IF b # 0 /\ At(s, b) = DOT THEN (IF IsDigit(At(s, b + 1)) THEN SkipDigits(s, b + 1) ELSE 0) ELSE b
        e1 == IF At(s, c + 1) \in {PLUS, MINUS} THEN c + 2 ELSE c + 1
    IN IF c = 0 THEN 0
       ELSE IF At(s, c) \notin {69, 101} THEN c
       ELSE IF IsDigit(At(s, e1)) THEN SkipDigits(s, e1) ELSE 0

JLit(s, i, w) == IF Has(s, i, w) THEN i + Len(w) ELSE 0

RECURSIVE JValEnd(_, _), JElemsEnd(_, _), JMembersEnd(_, _)
JValEnd(s, i) ==
    LET c == At(s, i) IN
    CASE c = QUOTE -> JStrEnd(s, i + 1)
      [] c = LBRACK -> LET j == SkipWs(s, i + 1) IN IF At(s, j) = RBRACK THEN j + 1 ELSE JElemsEnd(s, j)
      [] c = LBRACE -> LET j == SkipWs(s, i + 1) IN IF At(s, j) = RBRACE THEN j + 1 ELSE JMembersEnd(s, j)
      [] c = 116 -> JLit(s, i, K_true)
      [] c = 102 -> JLit(s, i, K_false)
      [] c = 110 -> JLit(s, i, K_null)
      [] OTHER -> JNumEnd(s, i)
JElemsEnd(s, i) ==
    LET v == JValEnd(s, i)
        j == SkipWs(s, v)
    IN IF v = 0 THEN 0
       ELSE IF At(s, j) = RBRACK THEN j + 1
       ELSE IF At(s, j) = COMMA THEN JElemsEnd(s, SkipWs(s, j + 1))
       ELSE 0
JMembersEnd(s, i) ==
    LET k == IF At(s, i) = QUOTE THEN JStrEnd(s, i + 1) ELSE 0
        c == SkipWs(s, k)
        v == IF k # 0 /\ At(s, c) = COLON THEN JValEnd(s, SkipWs(s, c + 1)) ELSE 0
        j == SkipWs(s, v)
    IN IF v = 0 THEN 0
       ELSE IF At(s, j) = RBRACE THEN j + 1
       ELSE IF At(s, j) = COMMA THEN JMembersEnd(s, SkipWs(s, j + 1))
       ELSE 0

ValidJson(s) ==
    LET e == JValEnd(s, SkipWs(s, 1)) IN e # 0 /\ SkipWs(s, e) = Len(s) + 1

(* the text without insignificant whitespace *)
RECURSIVE Squeeze(_, _, _)
Squeeze(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF IsWs(s[i]) THEN Squeeze(s, i + 1, acc)
    ELSE IF s[i] = QUOTE
    THEN LET e == JStrEnd(s, i + 1) IN Squeeze(s, e, TLCEval(acc \o SubSeq(s, i, e - 1)))
    ELSE Squeeze(s, i + 1, TLCEval(Append(acc, s[i])))
=============================================================================
