------------------------------- MODULE Advice -------------------------------
(***************************************************************************)
(* The hints and warnings a matcher gives about its query: a sequence of   *)
(* [ty, b, e] for the values concerned.  Regular expressions whose         *)
(* simplified form is hard to foresee make the advice undecided.           *)
(***************************************************************************)
EXTENDS Query

DotStar(x) == x.t = "rep" /\ x.x.t = "any" /\ x.min = 0 /\ x.max = -1
PlainLits(x) == x.t = "cat" /\ Len(x.xs) >= 2 /\ \A k \in 1..Len(x.xs) : x.xs[k].t = "lit" /\ (IsAscii(x.xs[k].c) \/ IsCJK(x.xs[k].c))
FirstLit(x) == Lower(x.xs[1].c)

(* an alternation of words of two letters and more that all begin differently *)
WordAlt(x) ==
    /\ x.t = "alt"
    /\ \A k \in 1..Len(x.xs) : PlainLits(x.xs[k])
    /\ \A k \in 1..Len(x.xs) : \A l \in 1..Len(x.xs) : k # l => FirstLit(x.xs[k]) # FirstLit(x.xs[l])

(* A sequence whose parts stay apart when the expression is simplified: runs of
   letters (one part each), .* and nothing else.  Yields the number of parts. *)
RECURSIVE PartsFrom(_, _)
PartsFrom(xs, i) ==
    IF i > Len(xs) THEN <<>>
    ELSE IF DotStar(xs[i]) THEN <<"dots">> \o PartsFrom(xs, i + 1)
    ELSE IF i > 1 /\ xs[i - 1].t = "lit" THEN PartsFrom(xs, i + 1)
    ELSE <<"word">> \o PartsFrom(xs, i + 1)
Tame(x) ==
    /\ x.t = "cat"
    /\ \A k \in 1..Len(x.xs) : (x.xs[k].t = "lit" /\ (IsAscii(x.xs[k].c) \/ IsCJK(x.xs[k].c))) \/ DotStar(x.xs[k])
    /\ \A k \in 1..(Len(x.xs) - 1) : ~(DotStar(x.xs[k]) /\ DotStar(x.xs[k + 1]))

(* trailing backslashes of s[1..n] *)
RECURSIVE Slashes(_, _)
Slashes(s, n) == IF n >= 1 /\ s[n] = BSLASH THEN 1 + Slashes(s, n - 1) ELSE 0
DotsText(src) ==
    \/ Has(src, 1, <<DOT, STAR>>)
    \/ Len(src) >= 2 /\ SubSeq(src, Len(src) - 1, Len(src)) = <<DOT, STAR>> /\ Slashes(src, Len(src) - 2) % 2 = 0

(* hints about an expression: [k, n: their number] *)
ShapeHints(x) ==
    IF WordAlt(x) THEN [k |-> "ok", n |-> 1]
    ELSE IF Tame(x)
    THEN LET ps == PartsFrom(x.xs, 1) IN
         [k |-> "ok",
          n |-> (IF Len(ps) >= 2 /\ ps[1] = "dots" THEN 1 ELSE 0)
              + (IF Len(ps) >= 3 /\ ps[Len(ps)] = "dots" THEN 1 ELSE 0)]
    ELSE Und

(* an outer group: the whole expression is one capturing group *)
Outer(x) == x.t = "cat" /\ Len(x.xs) = 1 /\ x.xs[1].t = "cap"

ReHints(v) ==
    LET body == IF Folds(v.v.fl) THEN SubSeq(v.src, 5, Len(v.src)) ELSE v.src
        inner == IF Outer(v.v.x) THEN v.v.x.xs[1].x ELSE v.v.x
        sh == ShapeHints(inner)
        uni == Folds(v.v.fl) /\ SomeOf(v.src, LAMBDA c : ~IsAscii(c))
    IN IF sh.k # "ok" \/ ~(v.v.fl \subseteq {105} \/ v.v.fl = {115}) THEN Und
       ELSE [k |-> "ok", ty |-> (IF uni THEN <<"WARNING">> ELSE <<>>)
               \o [j \in 1..((IF DotsText(body) THEN 1 ELSE 0) + (IF Outer(v.v.x) THEN 1 ELSE 0) + sh.n) |-> "HINT"]]

ValueAdvice(op, v) ==
    CASE v.ty = "string" -> [k |-> "ok", ty |-> IF op = "~" THEN <<"WARNING">> ELSE <<>>]
      [] v.ty = "regex" ->
           LET h == ReHints(v) IN
           IF h.k # "ok" THEN h
           ELSE [k |-> "ok", ty |-> (IF op = "~" THEN <<"WARNING">> ELSE <<>>) \o h.ty]
      [] v.ty = "timestamp" -> [k |-> "ok", ty |-> IF op = "==" /\ ~v.day THEN <<"WARNING">> ELSE <<>>]
      [] OTHER -> [k |-> "ok", ty |-> <<>>]

RECURSIVE Leaves(_)
Leaves(n) ==
    CASE n.t = "cmp" -> <<n>>
      [] n.t = "not" -> Leaves(n.x)
      [] OTHER -> Leaves(n.l) \o Leaves(n.r)

RECURSIVE CmpAdvice(_, _)
CmpAdvice(c, i) ==
    IF i > Len(c.vs) THEN [k |-> "ok", ms |-> <<>>]
    ELSE LET a == ValueAdvice(c.op, c.vs[i])
             r == CmpAdvice(c, i + 1)
         IN IF a.k # "ok" \/ r.k # "ok" THEN Und
            ELSE [k |-> "ok",
                  ms |-> [j \in 1..Len(a.ty) |-> [ty |-> a.ty[j], b |-> c.vs[i].b, e |-> c.vs[i].e]] \o r.ms]

RECURSIVE AllAdvice(_, _)
AllAdvice(ls, i) ==
    IF i > Len(ls) THEN [k |-> "ok", ms |-> <<>>]
    ELSE LET a == CmpAdvice(ls[i], 1)
             r == AllAdvice(ls, i + 1)
         IN IF a.k # "ok" \/ r.k # "ok" THEN Und ELSE [k |-> "ok", ms |-> a.ms \o r.ms]

AdviceFor(n) == AllAdvice(Leaves(n), 1)
=============================================================================
