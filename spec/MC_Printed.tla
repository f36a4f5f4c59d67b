----------------------------- MODULE MC_Printed -----------------------------
(***************************************************************************)
(* Two comparisons that are easily taken for each other, alone and within  *)
(* clauses.  Each is written down from its parts, so that it is known      *)
(* which of them are the same.                                             *)
(***************************************************************************)
EXTENDS Cases

Fields == {"a", "a.b", "\"a.b\"", "a.\"b\"", "\"a\\\"b\"", "\"\"", "\"a b\"", "\"a\".b.c", "\"a.b\".c", "a.\"b.c\"", "\"a:\"", "\"a)\""}
FieldOf(f) ==
    CASE f = "a" -> <<"a">>
      [] f \in {"a.b", "a.\"b\""} -> <<"a", "b">>
      [] f = "\"a.b\"" -> <<"a.b">>
      [] f = "\"a\\\"b\"" -> <<"a\"b">>
      [] f = "\"\"" -> <<"">>
      [] f = "\"a b\"" -> <<"a b">>
      [] f = "\"a\".b.c" -> <<"a", "b", "c">>
      [] f = "\"a.b\".c" -> <<"a.b", "c">>
      [] f = "a.\"b.c\"" -> <<"a", "b.c">>
      [] f = "\"a:\"" -> <<"a:">>
      [] f = "\"a)\"" -> <<"a)">>
Rights == {"1", "\"1\"", "/1/", "1.5", "true", "\"true\"", "exists", "null", "\"null\"", ">1", ">=1", "><(1,2)", "(1,2)", "(2,1)", "(\"1\",\"2\")",
           "\"1, 2\"", "(\"1, 2\",\"3\")", "(\"1\",\"2, 3\")", "2020-01-01", "\"2020-01-01\"", "10.0.0.1", "10.0.0.0/8", "~\"1\"", "~/1/", "/1 /", "\"/1/\"",
           "(\"1\",\"2\",\"3\")", "(\"1\\\", \\\"2\",\"3\")", "(\"1\\\",\\\"2\",\"3\")",
           "(/1/,/2/,/3/)", "(/1\\/, \\/2/,/3/)", "(/1\\/,\\/2/,/3/)", "/1\\//", "/\\/1/", "\"1\\\"\""}

VARIABLES f1, r1, f2, r2
Init == f1 \in Fields /\ f2 \in Fields /\ r1 \in Rights /\ r2 \in Rights
        /\ (f1 = f2 \/ r1 = r2 \/ (r1 \in {"1", "exists"} /\ r2 \in {"\"1\"", "null", "(1,2)"}))
Next == UNCHANGED <<f1, r1, f2, r2>>
Spec == Init /\ [][Next]_<<f1, r1, f2, r2>>

C1 == X(f1) \o <<COLON>> \o X(r1)
C2 == X(f2) \o <<COLON, SP>> \o X(r2)
Within(c, op, d) == c \o <<SP>> \o op \o <<SP>> \o d
Turned(c) == <<BANG>> \o c

Told ==
    LET a == Submit(C1)
        b == Submit(C2)
        equal == FieldOf(f1) = FieldOf(f2) /\ r1 = r2
        p(q, n, t) == [q |-> q, n |-> n, txt |-> t, names |-> <<t>>]
    IN /\ a.k = "ok" /\ b.k = "ok"
       /\ Comparison3(C1, a.n, C2, b.n) = (IF equal THEN "same" ELSE "diff")
       /\ (PrintedFlaw(<<p(C1, a.n, "x"), p(C2, b.n, "x")>>) = "") = equal
       /\ (PrintedFlaw(<<p(C1, a.n, "x"), p(C2, b.n, "y")>>) = "") = ~equal

Cases ==
    Emit([k |-> "printed",
          qs |-> <<C1, C2, Turned(C1), Within(C1, K_AND, C2), Within(C1, K_OR, C2), Within(C2, K_AND, C1),
                   Turned(<<LPAR>> \o Within(C1, K_AND, C2) \o <<RPAR>>), Within(Turned(C1), K_AND, C2)>>])
=============================================================================
