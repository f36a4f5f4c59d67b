----------------------------- MODULE MC_Clauses -----------------------------
(***************************************************************************)
(* Every short sequence of comparisons, connectives and parentheses, read  *)
(* by a pushdown automaton.                                                *)
(***************************************************************************)
EXTENDS Cases

MaxTokens == Bound("TOKENS", 5)

(* toks: the sequence, depth: open parentheses, want: what has to come:
   "operand", "plain" (an operand without NOT), "operator", or "dead" *)
VARIABLES toks, depth, want

Comparisons == {"a:1", "b.c:exists", "\"x y\":(\"(a\",2)"}
Tokens == Comparisons \cup {"(", ")", "!", "NOT", "AND", "OR"}

After(tok) ==
    IF want = "dead" THEN <<depth, "dead">>
    ELSE IF want = "operator"
    THEN IF tok \in {"AND", "OR"} THEN <<depth, "operand">>
         ELSE IF tok = ")" /\ depth > 0 THEN <<depth - 1, "operator">>
         ELSE <<depth, "dead">>
    ELSE IF tok \in Comparisons THEN <<depth, "operator">>
    ELSE IF tok = "(" THEN <<depth + 1, "operand">>
    ELSE IF tok \in {"!", "NOT"} /\ want = "operand" THEN <<depth, "plain">>
    ELSE <<depth, "dead">>

Init == toks = <<>> /\ depth = 0 /\ want = "operand"
Next ==
    /\ Len(toks) < MaxTokens
    /\ (want = "dead" => Len(toks) < MaxTokens - 1)
    /\ \E tok \in Tokens :
         /\ toks' = Append(toks, tok)
         /\ depth' = After(tok)[1] /\ want' = After(tok)[2]
Spec == Init /\ [][Next]_<<toks, depth, want>>

Accepted == want = "operator" /\ depth = 0

(* spaced: separators before each token, given the one before it *)
Close(t, u) == t \in {"(", "!"} \/ u = ")" \/ t = ""
RECURSIVE Spaced(_, _)
Spaced(i, style) ==
    IF i > Len(toks) THEN <<>>
    ELSE LET before == IF i = 1 THEN "" ELSE toks[i - 1]
             sep == IF style = "tight" THEN (IF Close(before, toks[i]) THEN <<>> ELSE <<SP>>)
                    ELSE IF style = "lines" THEN (IF i = 1 THEN <<LF>> ELSE <<CR, LF>>)
                    ELSE <<SP, TAB>>
         IN sep \o X(toks[i]) \o Spaced(i + 1, style)
Written1(style) == Spaced(1, style) \o (IF style = "lines" THEN <<LF, SP>> ELSE <<>>)
Styles == <<"tight", "lines", "wide">>

Automaton == \A k \in 1..Len(Styles) : (ParseText(Written1(Styles[k])).k = "ok") = Accepted
Cases ==
    Emit([k |-> "parse", qs |-> [i \in 1..Len(Styles) |-> Written1(Styles[i])]])
=============================================================================
