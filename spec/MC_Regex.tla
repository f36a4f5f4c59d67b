------------------------------ MODULE MC_Regex ------------------------------
(***************************************************************************)
(* Every small regular expression over a few atoms, on every short text.   *)
(***************************************************************************)
EXTENDS Cases

MaxOps == Bound("OPS", 2)
MaxText == Bound("TEXT", 3)

VARIABLES x, ops          \* an expression as a tree, and its size

Atoms == {[t |-> "ch", c |-> 97], [t |-> "ch", c |-> 66], [t |-> "dot"], [t |-> "not", c |-> 97], [t |-> "start"], [t |-> "end"],
          [t |-> "edge"], [t |-> "nothing"]}
Flags == {"i", "s", "m"}
Reps == {STAR, PLUS, QMARK}
Init == x \in Atoms /\ ops = 0
Simple(e) == e.t \in {"ch", "dot", "not"}
Next ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ \/ \E a \in Atoms : x' \in {[t |-> "then", l |-> x, r |-> a], [t |-> "then", l |-> a, r |-> x],
                                  [t |-> "or", l |-> x, r |-> a], [t |-> "or", l |-> a, r |-> x]}
       \/ x.t \notin {"start", "end", "edge", "nothing"} /\ \E op \in Reps : x' = [t |-> "rep", x |-> x, op |-> op]
       \/ \E fl \in Flags : x' = [t |-> "with", x |-> x, fl |-> fl]
Spec == Init /\ [][Next]_<<x, ops>>

RECURSIVE Src(_), Group1(_)
Src(e) ==
    CASE e.t = "ch" -> <<e.c>>
      [] e.t = "dot" -> <<DOT>>
      [] e.t = "not" -> <<LBRACK, CARET, e.c, RBRACK>>
      [] e.t = "start" -> <<CARET>>
      [] e.t = "end" -> <<DOLLAR>>
      [] e.t = "edge" -> <<BSLASH, 98>>
      [] e.t = "nothing" -> X("()")
      [] e.t = "then" -> Group1(e.l) \o Group1(e.r)
      [] e.t = "or" -> Src(e.l) \o <<PIPE>> \o Src(e.r)
      [] e.t = "rep" -> (IF Simple(e.x) THEN Src(e.x) ELSE X("(?:") \o Src(e.x) \o X(")")) \o <<e.op>>
      [] e.t = "with" -> X("(?") \o X(e.fl) \o X(":") \o Src(e.x) \o X(")")
Group1(e) == IF e.t = "or" THEN X("(") \o Src(e) \o X(")") ELSE Src(e)

Letters == {97, 98, LF}
Values == TLCEval(UNION {[1..n -> Letters] : n \in 0..MaxText})

(* e describes exactly s[i..j] *)
RECURSIVE Is(_, _, _, _, _)
Is(e, s, i, j, fl) ==
    LET one(b) == i = j /\ b
        none(b) == j = i - 1 /\ b
        same(c) == s[i] = c \/ ("i" \in fl /\ Lower(s[i]) = Lower(c))
    IN CASE e.t = "ch" -> i = j /\ same(e.c)
         [] e.t = "dot" -> i = j /\ (s[i] # LF \/ "s" \in fl)
         [] e.t = "not" -> i = j /\ ~same(e.c)
         [] e.t = "start" -> none(i = 1) \/ (j = i - 1 /\ "m" \in fl /\ i > 1 /\ s[i - 1] = LF)
         [] e.t = "end" -> none(i = Len(s) + 1) \/ (j = i - 1 /\ "m" \in fl /\ i <= Len(s) /\ s[i] = LF)
         [] e.t = "edge" -> none((i > 1 /\ IsWord(s[i - 1])) # (i <= Len(s) /\ IsWord(s[i])))
         [] e.t = "nothing" -> none(TRUE)
         [] e.t = "then" -> \E m \in i..(j + 1) : Is(e.l, s, i, m - 1, fl) /\ Is(e.r, s, m, j, fl)
         [] e.t = "or" -> Is(e.l, s, i, j, fl) \/ Is(e.r, s, i, j, fl)
         [] e.t = "with" -> Is(e.x, s, i, j, fl \cup {e.fl})
         [] e.t = "rep" ->
              \/ j = i - 1 /\ e.op \in {STAR, QMARK}
              \/ Is(e.x, s, i, j, fl)
              \/ e.op # QMARK /\ \E m \in (i + 1)..j : Is(e.x, s, i, m - 1, fl) /\ Is(e, s, m, j, fl)

Declared ==
    LET r == ParseRe(Src(x)) IN
    /\ r.k = "ok"
    /\ \A s \in Values :
         ReMatch(r, s) = Ans(\E i \in 1..(Len(s) + 1) : \E j \in (i - 1)..Len(s) : Is(x, s, i, j, {}))

Docs == TLCEval([i \in 1..Cardinality(Values) |-> Obj(<<Mem(X("a"), Str(Listed(Values)[i]))>>)])
Cases == Emit([k |-> "table", qs |-> <<X("a:/") \o Src(x) \o X("/")>>, ds |-> Docs])
=============================================================================
