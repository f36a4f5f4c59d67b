------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Evaluation counts.  A statistics tree is [nm, c, m, ch]: the name of    *)
(* the clause (AND, OR, NOT or anything else for a comparison), how often  *)
(* it was evaluated, how often it was true, and the operands' trees.       *)
(***************************************************************************)
EXTENDS Query

RECURSIVE ZeroStats(_)
ZeroStats(n) ==
    CASE n.t = "cmp" -> [nm |-> "cmp", c |-> 0, m |-> 0, ch |-> <<>>]
      [] n.t = "not" -> [nm |-> "NOT", c |-> 0, m |-> 0, ch |-> <<ZeroStats(n.x)>>]
      [] n.t = "and" -> [nm |-> "AND", c |-> 0, m |-> 0, ch |-> <<ZeroStats(n.l), ZeroStats(n.r)>>]
      [] n.t = "or" -> [nm |-> "OR", c |-> 0, m |-> 0, ch |-> <<ZeroStats(n.l), ZeroStats(n.r)>>]

Mark(st, a) == [st EXCEPT !.c = @ + 1, !.m = IF a = T THEN @ + 1 ELSE @]

(* evaluate n on doc: [a: the answer, st: the new statistics].  The right
   operand is evaluated only if the left one did not decide. *)
RECURSIVE Count(_, _, _)
Count(n, doc, st) ==
    CASE n.t = "cmp" -> LET a == CmpEval(n, doc) IN [a |-> a, st |-> Mark(st, a)]
      [] n.t = "not" ->
           LET x == Count(n.x, doc, st.ch[1])
               a == NotA(x.a)
           IN [a |-> a, st |-> Mark([st EXCEPT !.ch = <<x.st>>], a)]
      [] OTHER ->
           LET l == Count(n.l, doc, st.ch[1])
               done == l.a = (IF n.t = "and" THEN F ELSE T)
               r == Count(n.r, doc, st.ch[2])
           IN IF l.a = U THEN [a |-> U, st |-> st]
              ELSE IF done THEN [a |-> l.a, st |-> Mark([st EXCEPT !.ch = <<l.st, st.ch[2]>>], l.a)]
              ELSE [a |-> r.a, st |-> Mark([st EXCEPT !.ch = <<l.st, r.st>>], r.a)]

RECURSIVE SameStats(_, _)
SameStats(x, y) ==
    /\ x.c = y.c /\ x.m = y.m
    /\ (IF x.nm = "cmp" THEN y.nm \notin {"AND", "OR", "NOT"} ELSE x.nm = y.nm)
    /\ Len(x.ch) = Len(y.ch)
    /\ \A k \in 1..Len(x.ch) : SameStats(x.ch[k], y.ch[k])

(* from the statistics a by n evaluations that each add what led from a to b *)
RECURSIVE Times(_, _, _)
Times(a, b, n) ==
    [nm |-> a.nm, c |-> a.c + n * (b.c - a.c), m |-> a.m + n * (b.m - a.m),
     ch |-> [k \in 1..Len(a.ch) |-> Times(a.ch[k], b.ch[k], n)]]

(* A history: steps [d: document, bad: not valid JSON, n: how many times in a
   row, r: the answer, st: the statistics read afterwards].  The first step that is wrong, 0 if none, -1 if
   not decided. *)
RECURSIVE FirstWrong(_, _, _, _)
FirstWrong(n, steps, i, st) ==
    IF i > Len(steps) THEN 0
    ELSE LET s == steps[i]
             x == Count(n, s.d, st)
             next == TLCEval(IF s.n = 1 THEN x.st ELSE Times(st, x.st, s.n))
         IN IF s.bad THEN (IF s.r = "X" /\ SameStats(st, s.st) THEN FirstWrong(n, steps, i + 1, st) ELSE i)
            ELSE IF x.a = U THEN -1
            ELSE IF s.r = x.a /\ SameStats(next, s.st) THEN FirstWrong(n, steps, i + 1, next)
            ELSE i
=============================================================================
