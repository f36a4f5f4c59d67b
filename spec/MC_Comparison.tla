---------------------------- MODULE MC_Comparison ----------------------------
(***************************************************************************)
(* Every short sequence of the lexemes of one comparison, read by a finite *)
(* automaton.                                                              *)
(***************************************************************************)
EXTENDS Cases

MaxTokens == Bound("TOKENS", 6)

VARIABLES toks, st, stars, members

Names == {"a", "\"b.c\""}
Ops == {"<", "<=", ">", ">=", "><", "~"}
Plain == {"\"b.c\"", "1", "-2.5", "true", "\"x\"", "/r/", "2020-01-01", "10.0.0.1/8"}
Preds == {"exists", "null"}
Tokens == Names \cup Ops \cup Plain \cup Preds \cup {"*", ".", ":", "(", ")", ","}

(* st: "piece" / "named" / "colon" / "op" / "list" / "value" / "comma" / "done" / "dead";
   stars: no name so far; members: of the list *)
To(s, n, m) == <<s, n, m>>
After(tok) ==
    CASE st = "piece" /\ tok \in Names -> To("named", FALSE, 0)
      [] st = "piece" /\ tok = "\"x\"" -> To("named", FALSE, 0)
      [] st = "piece" /\ tok \in {"1", "true", "2020-01-01"} \cup Preds -> To("named", FALSE, 0)
      [] st = "piece" /\ tok = "*" -> To("named", stars, 0)
      [] st = "named" /\ tok = "." -> To("piece", stars, 0)
      [] st = "named" /\ tok = ":" /\ ~stars -> To("colon", stars, 0)
      [] st = "colon" /\ tok \in Preds -> To("done", stars, 0)
      [] st = "colon" /\ tok \in Ops -> To("op", stars, 0)
      [] st \in {"colon", "op"} /\ tok \in Plain -> To("done", stars, 0)
      [] st \in {"colon", "op"} /\ tok = "(" -> To("list", stars, 0)
      [] st \in {"list", "comma"} /\ tok \in Plain -> To("value", stars, members + 1)
      [] st = "value" /\ tok = "," -> To("comma", stars, members)
      [] st = "value" /\ tok = ")" /\ members >= 2 -> To("done", stars, 0)
      [] OTHER -> To("dead", stars, 0)

(* lexemes that would run into each other *)
Wordy(t) == t \in (Names \cup Plain \cup Preds \cup {"*"})
Merges(t, u) ==
    \/ Wordy(t) /\ Wordy(u)
    \/ t \in Ops /\ u \in Ops
    \/ t \in Plain /\ u = "."
    \/ t = "." /\ u \in {"-2.5", "10.0.0.1/8"}

Init == toks = <<>> /\ st = "piece" /\ stars = TRUE /\ members = 0
Next ==
    /\ Len(toks) < MaxTokens /\ st # "dead"
    /\ \E tok \in Tokens :
         /\ toks # <<>> /\ st # "named" => ~Merges(toks[Len(toks)], tok)
         /\ st = "named" => ~(Wordy(toks[Len(toks)]) /\ Wordy(tok))
         /\ st = "piece" => tok \notin {"-2.5", "10.0.0.1/8"}
         /\ toks' = Append(toks, tok)
         /\ st' = After(tok)[1] /\ stars' = After(tok)[2] /\ members' = After(tok)[3]
Spec == Init /\ [][Next]_<<toks, st, stars, members>>

Tight == ConcatAll([i \in 1..Len(toks) |-> X(toks[i])])
(* blanks are allowed around the colon, after the operator and in lists *)
RECURSIVE Loose(_, _)
Loose(i, colon) ==
    IF i > Len(toks) THEN <<>>
    ELSE LET c == colon \/ toks[i] = ":"
         IN (IF i > 1 /\ c THEN <<SP, LF>> ELSE <<>>) \o X(toks[i]) \o Loose(i + 1, c)

Automaton ==
    \A q \in {Tight, <<TAB>> \o Loose(1, FALSE) \o <<LF>>} : (ParseText(q).k = "ok") = (st = "done")
Cases == Emit([k |-> "parse", qs |-> <<Tight, <<TAB>> \o Loose(1, FALSE) \o <<LF>> >>])
=============================================================================
