------------------------------ MODULE Regexes ------------------------------
(***************************************************************************)
(* A subset of Go's regular expressions: syntax and meaning.  Expressions  *)
(* outside of the subset are undecided ("und").                            *)
(*                                                                         *)
(* Parse results: [k: "ok", x: node, e: end] / [k: "bad"] / [k: "und"].    *)
(* Nodes: lit c, any, cls (neg, rs), bol, eol, bot, eot, wb, nwb, cap x,   *)
(* mode x fl, cat xs, alt xs, rep x min max (max -1: unbounded).  Modes    *)
(* are sets of flag letters: i folds case, m makes ^ and $ match at lines, *)
(* s lets . match a line break, U only exchanges greedy and lazy.          *)
(***************************************************************************)
EXTENDS Texts, TLC

Bad == [k |-> "bad"]
Und == [k |-> "und"]
Ok(x, e) == [k |-> "ok", x |-> x, e |-> e]

ClsDigit == << <<48, 57>> >>
ClsWord == << <<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>> >>
ClsSpace == << <<9, 10>>, <<12, 13>>, <<32, 32>> >>
IsPunct(c) == c > 32 /\ c < 127 /\ ~IsAlnum(c)

MkCls(neg, rs) == [t |-> "cls", neg |-> neg, rs |-> rs]
Lit(c) == [t |-> "lit", c |-> c]

(* the escape \c outside of a class *)
Escape(c, e) ==
    CASE c = 100 -> Ok(MkCls(FALSE, ClsDigit), e)
      [] c = 68  -> Ok(MkCls(TRUE, ClsDigit), e)
      [] c = 119 -> Ok(MkCls(FALSE, ClsWord), e)
      [] c = 87  -> Ok(MkCls(TRUE, ClsWord), e)
      [] c = 115 -> Ok(MkCls(FALSE, ClsSpace), e)
      [] c = 83  -> Ok(MkCls(TRUE, ClsSpace), e)
      [] c = 98  -> Ok([t |-> "wb"], e)
      [] c = 66  -> Ok([t |-> "nwb"], e)
      [] c = 65  -> Ok([t |-> "bot"], e)
      [] c = 122 -> Ok([t |-> "eot"], e)
      [] c = 110 -> Ok(Lit(LF), e)
      [] c = 116 -> Ok(Lit(TAB), e)
      [] c = 114 -> Ok(Lit(CR), e)
      [] IsPunct(c) -> Ok(Lit(c), e)
      [] c \in {113, 101, 106, 107, 99, 117, 71, 72, 73, 74, 75, 77, 78, 79} -> Bad
      [] OTHER -> Und

(* one character of a class: [k, c, e] *)
ClassChar(s, i) ==
    LET c == At(s, i) IN
    IF c = EOT THEN Bad
    ELSE IF c = BSLASH THEN
         (IF IsPunct(At(s, i + 1)) THEN [k |-> "ok", c |-> At(s, i + 1), e |-> i + 2]
          ELSE IF At(s, i + 1) = 110 THEN [k |-> "ok", c |-> LF, e |-> i + 2]
          ELSE IF At(s, i + 1) = 116 THEN [k |-> "ok", c |-> TAB, e |-> i + 2]
          ELSE Und)
    ELSE IF c = LBRACK /\ At(s, i + 1) = COLON THEN Und
    ELSE [k |-> "ok", c |-> c, e |-> i + 1]

RECURSIVE ClassItems(_, _, _, _)
ClassItems(s, i, rs, first) ==
    LET c == At(s, i) IN
    IF c = EOT THEN Bad
    ELSE IF c = RBRACK /\ ~first THEN [k |-> "ok", rs |-> rs, e |-> i + 1]
    ELSE IF c = RBRACK THEN Und
    ELSE IF c = BSLASH /\ At(s, i + 1) \in {100, 119, 115}
    THEN IF At(s, i + 2) = MINUS /\ At(s, i + 3) # RBRACK THEN Und
         ELSE ClassItems(s, i + 2,
                rs \o (CASE s[i + 1] = 100 -> ClsDigit [] s[i + 1] = 119 -> ClsWord [] OTHER -> ClsSpace), FALSE)
    ELSE IF c = MINUS /\ ~first /\ At(s, i + 1) # RBRACK THEN Und
    ELSE LET a == ClassChar(s, i) IN
         IF a.k # "ok" THEN a
         ELSE IF At(s, a.e) = MINUS /\ At(s, a.e + 1) # RBRACK
         THEN LET b == ClassChar(s, a.e + 1) IN
              IF b.k # "ok" THEN b
              ELSE IF b.c < a.c THEN Bad
              ELSE ClassItems(s, b.e, Append(rs, <<a.c, b.c>>), FALSE)
         ELSE ClassItems(s, a.e, Append(rs, <<a.c, a.c>>), FALSE)

(* quantifier at i: [k: "ok", min, max, e] or "no"; a malformed {..} is a literal *)
Quant(s, i) ==
    LET c == At(s, i)
        lazy(e) == IF At(s, e) = QMARK THEN e + 1 ELSE e
        q(mn, mx, e) == [k |-> "ok", min |-> mn, max |-> mx, e |-> lazy(e)]
    IN CASE c = STAR -> q(0, -1, i + 1)
         [] c = PLUS -> q(1, -1, i + 1)
         [] c = QMARK -> q(0, 1, i + 1)
         [] c = LBRACE ->
              LET a == SkipDigits(s, i + 1)
                  n == NatAt(s, i + 1, a - i - 1)
                  b == SkipDigits(s, a + 1)
                  m == NatAt(s, a + 1, b - a - 1)
              IN IF a = i + 1 \/ a - i > 4 \/ (a > i + 2 /\ s[i + 1] = 48) THEN (IF a = i + 1 THEN [k |-> "lit"] ELSE Und)
                 ELSE IF At(s, a) = RBRACE THEN q(n, n, a + 1)
                 ELSE IF At(s, a) # COMMA THEN [k |-> "lit"]
                 ELSE IF At(s, b) # RBRACE THEN [k |-> "lit"]
                 ELSE IF b = a + 1 THEN q(n, -1, b + 1)
                 ELSE IF b - a > 4 \/ (b > a + 2 /\ s[a + 1] = 48) THEN Und
                 ELSE IF m < n THEN Bad
                 ELSE q(n, m, b + 1)
         [] OTHER -> [k |-> "no"]

FlagLetters == {105, 109, 115, 85}      \* i m s U
RECURSIVE SkipFlags(_, _)
SkipFlags(s, i) == IF At(s, i) \in FlagLetters THEN SkipFlags(s, i + 1) ELSE i
FlagsIn(s, i, j) == {s[k] : k \in i..(j - 1)}

RECURSIVE Alts(_, _, _), Cats(_, _, _), Atom(_, _)

(* alternatives up to ')' or the end *)
Alts(s, i, acc) ==
    LET c == Cats(s, i, <<>>) IN
    IF c.k # "ok" THEN c
    ELSE IF At(s, c.e) = PIPE THEN Alts(s, c.e + 1, Append(acc, c.x))
    ELSE Ok(IF acc = <<>> THEN c.x ELSE [t |-> "alt", xs |-> Append(acc, c.x)], c.e)

Cats(s, i, acc) ==
    IF At(s, i) \in {EOT, PIPE, RPAR} THEN Ok([t |-> "cat", xs |-> acc], i)
    ELSE LET a == Atom(s, i) IN
         IF a.k # "ok" THEN a
         ELSE LET q == Quant(s, a.e) IN
              IF q.k = "no" \/ q.k = "lit" THEN Cats(s, a.e, Append(acc, a.x))
              ELSE IF q.k # "ok" THEN q
              ELSE IF a.x.t \in {"bol", "eol", "bot", "eot", "wb", "nwb"} THEN Und
              ELSE LET q2 == Quant(s, q.e) IN
                   IF q2.k = "ok" THEN Bad
                   ELSE IF q2.k \in {"und", "bad"} THEN Und
                   ELSE Cats(s, q.e, Append(acc, [t |-> "rep", x |-> a.x, min |-> q.min, max |-> q.max]))

Atom(s, i) ==
    LET c == At(s, i) IN
    CASE c = LPAR ->
           LET nc == At(s, i + 1) = QMARK
               j == SkipFlags(s, i + 2)
           IN IF nc /\ At(s, j) # COLON THEN Und
              ELSE LET r == Alts(s, IF nc THEN j + 1 ELSE i + 1, <<>>) IN
                   IF r.k # "ok" THEN r
                   ELSE IF At(s, r.e) # RPAR THEN Bad
                   ELSE Ok(IF nc /\ j = i + 2 THEN r.x
                           ELSE IF nc THEN [t |-> "mode", x |-> r.x, fl |-> FlagsIn(s, i + 2, j)]
                           ELSE [t |-> "cap", x |-> r.x], r.e + 1)
      [] c = LBRACK ->
           LET neg == At(s, i + 1) = CARET
               r == ClassItems(s, IF neg THEN i + 2 ELSE i + 1, <<>>, TRUE)
           IN IF r.k # "ok" THEN r ELSE Ok(MkCls(neg, r.rs), r.e)
      [] c = DOT -> Ok([t |-> "any"], i + 1)
      [] c = CARET -> Ok([t |-> "bol"], i + 1)
      [] c = DOLLAR -> Ok([t |-> "eol"], i + 1)
      [] c = BSLASH -> IF At(s, i + 1) = EOT THEN Bad ELSE Escape(At(s, i + 1), i + 2)
      [] c \in {STAR, PLUS, QMARK} -> Bad
      [] c = LBRACE -> IF Quant(s, i).k = "lit" THEN Ok(Lit(c), i + 1) ELSE Und
      [] OTHER -> Ok(Lit(c), i + 1)

(* flags for the whole expression, (?im) say: where they end, 1 if there are none *)
AfterFlags(s) ==
    LET j == SkipFlags(s, 3) IN
    IF At(s, 1) = LPAR /\ At(s, 2) = QMARK /\ j > 3 /\ At(s, j) = RPAR THEN j + 1 ELSE 1

(* [k, x, fl] *)
ParseRe(s) ==
    LET b == AfterFlags(s)
        r == Alts(s, b, <<>>)
    IN IF r.k # "ok" THEN r
       ELSE IF r.e # Len(s) + 1 THEN Bad       \* unexpected )
       ELSE [k |-> "ok", x |-> r.x, fl |-> IF b = 1 THEN {} ELSE FlagsIn(s, 3, b - 1)]

Folds(fl) == 105 \in fl
Lines(fl) == 109 \in fl
DotAll(fl) == 115 \in fl

RECURSIVE EverFolds(_)
EverFolds(n) ==
    CASE n.t = "mode" -> Folds(n.fl) \/ EverFolds(n.x)
      [] n.t \in {"cap", "rep"} -> EverFolds(n.x)
      [] n.t \in {"cat", "alt"} -> \E k \in 1..Len(n.xs) : EverFolds(n.xs[k])
      [] OTHER -> FALSE

InCls(n, c, fold) ==
    LET in(d) == \E k \in 1..Len(n.rs) : n.rs[k][1] <= d /\ d <= n.rs[k][2]
    IN (IF fold THEN in(c) \/ in(Lower(c)) \/ in(Upper(c)) ELSE in(c)) # n.neg

(* the positions where a match of n can end that starts at one of the positions ps *)
RECURSIVE Ends(_, _, _, _)
Ends(n, s, ps, fl) ==
    LET one(C(_)) == {i + 1 : i \in {j \in ps : j <= Len(s) /\ C(s[j])}} IN
    CASE ps = {} -> {}
      [] n.t = "lit" -> one(LAMBDA c : c = n.c \/ (Folds(fl) /\ Lower(c) = Lower(n.c)))
      [] n.t = "any" -> one(LAMBDA c : c # LF \/ DotAll(fl))
      [] n.t = "cls" -> one(LAMBDA c : InCls(n, c, Folds(fl)))
      [] n.t = "bol" -> {i \in ps : i = 1 \/ (Lines(fl) /\ s[i - 1] = LF)}
      [] n.t = "eol" -> {i \in ps : i = Len(s) + 1 \/ (Lines(fl) /\ s[i] = LF)}
      [] n.t = "bot" -> ps \cap {1}
      [] n.t = "eot" -> ps \cap {Len(s) + 1}
      [] n.t = "wb"  -> {i \in ps : Boundary(s, i)}
      [] n.t = "nwb" -> {i \in ps : ~Boundary(s, i)}
      [] n.t = "cap" -> Ends(n.x, s, ps, fl)
      [] n.t = "mode" -> Ends(n.x, s, ps, fl \cup n.fl)
      [] n.t = "alt" -> UNION {Ends(n.xs[k], s, ps, fl) : k \in 1..Len(n.xs)}
      [] n.t = "cat" ->
           LET RECURSIVE Go(_, _)
               Go(k, qs) == IF k > Len(n.xs) \/ qs = {} THEN qs
                            ELSE Go(k + 1, TLCEval(Ends(n.xs[k], s, qs, fl)))
           IN Go(1, ps)
      [] n.t = "rep" ->
           LET Step(qs) == TLCEval(Ends(n.x, s, qs, fl))
               RECURSIVE Exactly(_, _), Close(_), UpTo(_, _)
               Exactly(qs, k) == IF k = 0 \/ qs = {} THEN qs ELSE Exactly(Step(qs), k - 1)
               Close(qs) == LET m == TLCEval(qs \cup Step(qs)) IN IF m = qs THEN qs ELSE Close(m)
               UpTo(qs, k) == LET m == TLCEval(qs \cup Step(qs)) IN
                              IF k = 0 \/ m = qs THEN qs ELSE UpTo(m, k - 1)
               base == TLCEval(Exactly(ps, n.min))
           IN IF n.max = -1 THEN Close(base) ELSE UpTo(base, n.max - n.min)

(* does the expression match somewhere in s? *)
ReMatch(r, s) ==
    IF (Folds(r.fl) \/ EverFolds(r.x)) /\ SomeOf(s, LAMBDA c : ~IsAscii(c)) THEN U
    ELSE Ans(Ends(r.x, s, 1..(Len(s) + 1), r.fl) # {})
=============================================================================
