------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The query language: from text to syntax tree.                           *)
(*                                                                         *)
(* Results: [k |-> "ok", n, e]   a tree and the position after it          *)
(*          [k |-> "no"]         the text does not continue that way       *)
(*          [k |-> "val", at, of]  the value (or field) at this position   *)
(*                               is not one                                *)
(*          [k |-> "und"]        depends on something left undecided       *)
(* "val" and "und" are final: no other reading of the text is tried.       *)
(*                                                                         *)
(* Trees: [t |-> "and"/"or", l, r], [t |-> "not", x],                      *)
(*        [t |-> "cmp", op, f, vs, b, e]  with the text s[b..e-1]          *)
(* Values: [ty, b, e, v] (regex: also src; time: also day)                 *)
(***************************************************************************)
EXTENDS Regexes

No == [k |-> "no"]
Val(at) == [k |-> "val", at |-> at, of |-> "value"]
NoName(at) == [k |-> "val", at |-> at, of |-> "field"]
Node(n, e) == [k |-> "ok", n |-> n, e |-> e]
Final(r) == r.k \in {"val", "und"}

(* ---------------------------- quoted strings ---------------------------- *)
(* position after the closing quote, or 0 *)
RECURSIVE QuoteEnd(_, _)
QuoteEnd(s, i) ==
    LET c == At(s, i) IN
    IF c = QUOTE THEN i + 1
    ELSE IF c = BSLASH
         THEN IF At(s, i + 1) \in {QUOTE, BSLASH, 98, 102, 110, 114, 116} THEN QuoteEnd(s, i + 2)
              ELSE IF At(s, i + 1) = 117 /\ (\A k \in 2..5 : IsHex(At(s, i + k))) THEN QuoteEnd(s, i + 6)
              ELSE 0
    ELSE IF c < 32 THEN 0           \* includes the end of the text
    ELSE QuoteEnd(s, i + 1)

HexAt(s, i) == HexVal(s[i]) * 4096 + HexVal(s[i + 1]) * 256 + HexVal(s[i + 2]) * 16 + HexVal(s[i + 3])

RECURSIVE Unquote(_, _, _)
(* the characters of the string whose text continues at i, up to the quote at e *)
Unquote(s, i, e) ==
    IF i >= e THEN <<>>
    ELSE IF s[i] # BSLASH THEN <<s[i]>> \o Unquote(s, i + 1, e)
    ELSE LET c == s[i + 1] IN
         IF c = 117 THEN <<HexAt(s, i + 2)>> \o Unquote(s, i + 6, e)
         ELSE <<CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> LF [] c = 114 -> CR [] c = 116 -> TAB [] OTHER -> c>>
              \o Unquote(s, i + 2, e)

(* quoted string at i: [k: "ok", v, e] / "no" / "val" *)
Quoted(s, i) ==
    IF At(s, i) # QUOTE THEN No
    ELSE LET e == QuoteEnd(s, i + 1) IN
         IF e = 0 THEN No
         ELSE LET v == Unquote(s, i + 1, e - 1) IN
              IF SomeOf(v, LAMBDA c : c >= 55296 /\ c <= 57343) THEN Val(i)   \* surrogates
              ELSE [k |-> "ok", v |-> v, e |-> e]

(* -------------------------------- regexes ------------------------------- *)
RECURSIVE RegexEnd(_, _)
RegexEnd(s, i) ==
    LET c == At(s, i) IN
    IF c = SLASH THEN i + 1
    ELSE IF c = EOT \/ c = LF THEN 0
    ELSE IF c = BSLASH THEN (IF At(s, i + 1) \in {EOT, LF} THEN 0 ELSE RegexEnd(s, i + 2))
    ELSE RegexEnd(s, i + 1)

RECURSIVE ReSource(_, _, _)
(* the expression between the delimiters: \/ stands for /, other escapes are kept *)
ReSource(s, i, e) ==
    IF i >= e THEN <<>>
    ELSE IF s[i] = BSLASH
         THEN (IF s[i + 1] = SLASH THEN <<SLASH>> ELSE <<BSLASH, s[i + 1]>>) \o ReSource(s, i + 2, e)
    ELSE <<s[i]>> \o ReSource(s, i + 1, e)

(* --------------------------------- values ------------------------------- *)
V(ty, b, e, v) == [k |-> "ok", n |-> [ty |-> ty, b |-> b, e |-> e, v |-> v], e |-> e]

IntEnd(s, i) ==
    LET a == IF At(s, i) = MINUS THEN i + 1 ELSE i
        b == SkipDigits(s, a)
    IN IF b = a THEN 0 ELSE b
FloatEnd(s, i) ==
    LET a == IntEnd(s, i) IN
    IF a # 0 /\ At(s, a) = DOT /\ IsDigit(At(s, a + 1)) THEN SkipDigits(s, a + 1) ELSE 0

Value(s, i) ==
    LET c == At(s, i)
        q == Quoted(s, i)
        re == IF c = SLASH THEN RegexEnd(s, i + 1) ELSE 0
        dt == ScanDateTime(s, i)
        te == IF dt # 0 THEN dt ELSE ScanDate(s, i)
        nt == ScanNet(s, i)
        fe == FloatEnd(s, i)
        ie == IntEnd(s, i)
    IN IF c = QUOTE /\ q.k = "ok" THEN V("string", i, q.e, q.v)
       ELSE IF c = QUOTE /\ q.k = "val" THEN q
       ELSE IF re # 0
       THEN LET src == ReSource(s, i + 1, re - 1)
                r == ParseRe(src)
            IN IF r.k = "bad" THEN Val(i)
               ELSE IF r.k = "und" THEN Und
               ELSE [k |-> "ok", e |-> re, n |-> [ty |-> "regex", b |-> i, e |-> re, v |-> r, src |-> src]]
       ELSE IF te # 0
       THEN LET tl == TimeLiteral(s, i, te) IN
            IF tl.und THEN Und
            ELSE IF ~tl.ok THEN Val(i)
            ELSE [k |-> "ok", e |-> te, n |-> [ty |-> "timestamp", b |-> i, e |-> te, v |-> tl.t, day |-> tl.day]]
       ELSE IF nt.e # 0 THEN (IF nt.ok THEN V("netaddr", i, nt.e, nt.net) ELSE Val(i))
       ELSE IF fe # 0
       THEN LET v == ReadNum(SubSeq(s, i, fe - 1)).v IN
            IF v.ex > 310 THEN Val(i) ELSE IF v.ex > 300 THEN Und ELSE V("float", i, fe, v)
       ELSE IF ie # 0
       THEN LET v == ReadNum(SubSeq(s, i, ie - 1)).v IN
            IF IsInt64(v) THEN V("integer", i, ie, v) ELSE Val(i)
       ELSE IF Has(s, i, K_false) THEN V("boolean", i, i + 5, FALSE)
       ELSE IF Has(s, i, K_true) THEN V("boolean", i, i + 4, TRUE)
       ELSE IF c = EOT \/ IsWs(c) THEN No
       ELSE Val(i)

(* values separated by commas from i on, after those in acc; then ) *)
RECURSIVE MoreValues(_, _, _)
MoreValues(s, i, acc) ==
    LET j == SkipWs(s, i) IN
    IF At(s, j) = RPAR THEN [k |-> "ok", vs |-> acc, e |-> j + 1]
    ELSE IF At(s, j) # COMMA THEN No
    ELSE LET v == Value(s, SkipWs(s, j + 1)) IN
         IF v.k # "ok" THEN v ELSE MoreValues(s, v.e, Append(acc, v.n))

(* [k: "ok", vs, e] *)
ValueList(s, i) ==
    IF At(s, i) = LPAR
    THEN LET v == Value(s, SkipWs(s, i + 1)) IN
         IF Final(v) THEN v
         ELSE IF v.k = "no" THEN Val(i)
         ELSE LET r == MoreValues(s, v.e, <<v.n>>) IN
              IF Final(r) THEN r
              ELSE IF r.k = "no" THEN Val(i)
              ELSE IF Len(r.vs) < 2 THEN Val(i)         \* a list needs two values
              ELSE r
    ELSE LET v == Value(s, i) IN
         IF v.k # "ok" THEN v ELSE [k |-> "ok", vs |-> <<v.n>>, e |-> v.e]

(* --------------------------------- fields ------------------------------- *)
NameChar(c) == IsAlnum(c) \/ c = USCORE \/ c = MINUS
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF NameChar(At(s, i)) THEN NameEnd(s, i + 1) ELSE i

(* one piece: [k, v: sequence of at most one name, e]; a star names nothing *)
FieldPiece(s, i) ==
    LET q == Quoted(s, i) IN
    IF q.k = "ok" THEN [k |-> "ok", v |-> <<q.v>>, e |-> q.e]
    ELSE IF q.k = "val" THEN NoName(i)
    ELSE IF NameChar(At(s, i)) THEN [k |-> "ok", v |-> <<SubSeq(s, i, NameEnd(s, i) - 1)>>, e |-> NameEnd(s, i)]
    ELSE IF At(s, i) = STAR THEN [k |-> "ok", v |-> <<>>, e |-> i + 1]
    ELSE No

RECURSIVE MorePieces(_, _, _)
MorePieces(s, i, acc) ==
    IF At(s, i) # DOT THEN [k |-> "ok", v |-> acc, e |-> i]
    ELSE LET p == FieldPiece(s, i + 1) IN
         IF p.k = "no" THEN [k |-> "ok", v |-> acc, e |-> i]
         ELSE IF p.k # "ok" THEN p
         ELSE MorePieces(s, p.e, acc \o p.v)

Field(s, i) ==
    LET p == FieldPiece(s, i) IN
    IF p.k # "ok" THEN p
    ELSE LET r == MorePieces(s, p.e, p.v) IN
         IF r.k # "ok" THEN r
         ELSE IF r.v = <<>> THEN NoName(i)
         ELSE r

(* -------------------------------- clauses ------------------------------- *)
(* comparison operator at i: [op, e]; absent: equality *)
Operator(s, i) ==
    LET c == At(s, i)  d == At(s, i + 1) IN
    CASE c = GREATER /\ d = LESS -> [op |-> "><", e |-> i + 2]
      [] c = TILDE -> [op |-> "~", e |-> i + 1]
      [] c = LESS /\ d = EQUALS -> [op |-> "<=", e |-> i + 2]
      [] c = LESS /\ d # EQUALS -> [op |-> "<", e |-> i + 1]
      [] c = GREATER /\ d = EQUALS -> [op |-> ">=", e |-> i + 2]
      [] c = GREATER /\ d # EQUALS /\ d # LESS -> [op |-> ">", e |-> i + 1]
      [] OTHER -> [op |-> "==", e |-> i]

Cmp(op, f, vs, b, e) == [t |-> "cmp", op |-> op, f |-> f, vs |-> vs, b |-> b, e |-> e]

RECURSIVE OrClause(_, _), AndClause(_, _), NotClause(_, _), Comparison(_, _)

Comparison(s, i) ==
    IF At(s, i) = LPAR
    THEN LET r == OrClause(s, SkipWs(s, i + 1)) IN
         IF r.k # "ok" THEN r
         ELSE LET j == SkipWs(s, r.e) IN
              IF At(s, j) = RPAR THEN Node(r.n, j + 1) ELSE No
    ELSE LET f == Field(s, i) IN
         IF f.k # "ok" THEN f
         ELSE LET c == SkipWs(s, f.e) IN
              IF At(s, c) # COLON THEN No
              ELSE LET a == SkipWs(s, c + 1) IN
                   IF Has(s, a, K_exists) THEN Node(Cmp("exists", f.v, <<>>, i, a + 6), a + 6)
                   ELSE IF Has(s, a, K_null) THEN Node(Cmp("null", f.v, <<>>, i, a + 4), a + 4)
                   ELSE LET o == Operator(s, a)
                            vl == ValueList(s, SkipWs(s, o.e))
                        IN IF vl.k # "ok" THEN vl
                           ELSE Node(Cmp(o.op, f.v, vl.vs, i, vl.e), vl.e)

(* position after NOT and its spaces, or after ! and its optional spaces; 0: neither *)
NotEnd(s, i) ==
    IF Has(s, i, K_NOT) /\ IsWs(At(s, i + 3)) THEN SkipWs(s, i + 3)
    ELSE IF At(s, i) = BANG THEN SkipWs(s, i + 1)
    ELSE 0

NotClause(s, i) ==
    LET j == NotEnd(s, i)
        x == IF j # 0 THEN Comparison(s, j) ELSE No
    IN IF x.k = "ok" THEN Node([t |-> "not", x |-> x.n], x.e)
       ELSE IF Final(x) THEN x
       ELSE Comparison(s, i)

(* the connective w between spaces at i: position of its right operand, or 0 *)
Connective(s, i, w) ==
    LET j == SkipWs(s, i)
        e == j + Len(w)
    IN IF j > i /\ Has(s, j, w) /\ IsWs(At(s, e)) THEN SkipWs(s, e) ELSE 0

AndClause(s, i) ==
    LET a == NotClause(s, i) IN
    IF a.k # "ok" THEN a
    ELSE LET j == Connective(s, a.e, K_AND)
             r == IF j # 0 THEN AndClause(s, j) ELSE No
         IN IF r.k = "ok" THEN Node([t |-> "and", l |-> a.n, r |-> r.n], r.e)
            ELSE IF Final(r) THEN r ELSE a

OrClause(s, i) ==
    LET a == AndClause(s, i) IN
    IF a.k # "ok" THEN a
    ELSE LET j == Connective(s, a.e, K_OR)
             r == IF j # 0 THEN OrClause(s, j) ELSE No
         IN IF r.k = "ok" THEN Node([t |-> "or", l |-> a.n, r |-> r.n], r.e)
            ELSE IF Final(r) THEN r ELSE a

(* a whole query *)
ParseText(s) ==
    LET r == OrClause(s, SkipWs(s, 1)) IN
    IF r.k # "ok" THEN r
    ELSE IF SkipWs(s, r.e) = Len(s) + 1 THEN r ELSE No

(* ------------------------------- positions ------------------------------ *)
RECURSIVE Places(_, _, _)
(* line, column and byte offset of every character, and of the end *)
Places(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET p == acc[i]
             c == s[i]
         IN Places(s, i + 1, TLCEval(Append(acc,
              [l |-> IF c = LF THEN p.l + 1 ELSE p.l, c |-> IF c = LF THEN 1 ELSE p.c + 1, o |-> p.o + Bytes(c)])))
PlacesOf(s) == Places(s, 1, <<[l |-> 1, c |-> 1, o |-> 0]>>)

(* <<line, column, byte offset, length>> of s[b..e-1], given the places of s *)
PosOf(pl, b, e) == <<pl[b].l, pl[b].c, pl[b].o, e - b>>
=============================================================================
