------------------------------ MODULE MC_Json ------------------------------
(***************************************************************************)
(* Every short sequence of JSON tokens, read by a pushdown automaton.      *)
(***************************************************************************)
EXTENDS Cases

MaxTokens == Bound("TOKENS", 5)

VARIABLES toks, stack, want

Strings == {"\"a\"", "\"\\u0061\\n\""}
Others == {"1", "-0.5e+1", "true", "null"}
Junk == {"01", "1.", "tru", "\"\\x\"", "'a'", "+1"}
Tokens == Strings \cup Others \cup Junk \cup {"{", "}", "[", "]", ",", ":"}

(* want: "value", "first" (value or ]), "key1" (name or }), "key", "colon", "after", "dead" *)
Top == IF stack = <<>> THEN "" ELSE stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Go(s, w) == <<s, w>>
After(tok) ==
    CASE want \in {"value", "first"} /\ tok \in Strings \cup Others -> Go(stack, "after")
      [] want \in {"value", "first"} /\ tok = "{" -> Go(Append(stack, "obj"), "key1")
      [] want \in {"value", "first"} /\ tok = "[" -> Go(Append(stack, "arr"), "first")
      [] want = "first" /\ tok = "]" -> Go(Pop, "after")
      [] want \in {"key1", "key"} /\ tok \in Strings -> Go(stack, "colon")
      [] want = "key1" /\ tok = "}" -> Go(Pop, "after")
      [] want = "colon" /\ tok = ":" -> Go(stack, "value")
      [] want = "after" /\ tok = "," /\ Top = "obj" -> Go(stack, "key")
      [] want = "after" /\ tok = "," /\ Top = "arr" -> Go(stack, "value")
      [] want = "after" /\ tok = "}" /\ Top = "obj" -> Go(Pop, "after")
      [] want = "after" /\ tok = "]" /\ Top = "arr" -> Go(Pop, "after")
      [] OTHER -> Go(stack, "dead")

Init == toks = <<>> /\ stack = <<>> /\ want = "value"
Next ==
    /\ Len(toks) < MaxTokens /\ want # "dead"
    /\ \E tok \in Tokens :
         toks' = Append(toks, tok) /\ stack' = After(tok)[1] /\ want' = After(tok)[2]
Spec == Init /\ [][Next]_<<toks, stack, want>>

Wordy(t) == t \in Others \cup Junk
RECURSIVE Tight(_)
Tight(i) ==
    IF i > Len(toks) THEN <<>>
    ELSE (IF i > 1 /\ Wordy(toks[i]) /\ Wordy(toks[i - 1]) THEN <<SP>> ELSE <<>>) \o X(toks[i]) \o Tight(i + 1)
RECURSIVE Wide(_)
Wide(i) == IF i > Len(toks) THEN <<LF>> ELSE <<SP, TAB>> \o X(toks[i]) \o <<CR>> \o Wide(i + 1)

Document == want = "after" /\ stack = <<>>
Automaton == ValidJson(Tight(1)) = Document /\ ValidJson(Wide(1)) = Document
             /\ (Document => Squeeze(Tight(1), 1, <<>>) = Squeeze(Wide(1), 1, <<>>))
Cases == Emit([k |-> "total", q |-> X("a:exists OR a:1 OR !(b:null)"), bs |-> <<Tight(1), Wide(1)>>])
=============================================================================
