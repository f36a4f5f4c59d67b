------------------------------ MODULE Validate ------------------------------
(***************************************************************************)
(* Which comparisons make sense.  Verdicts: [k: "ok"] or [k: "arg", b, e]  *)
(* or [k: "cmp", b, e] with the text to blame, or "und".                   *)
(***************************************************************************)
EXTENDS Grammar, FiniteSets, TLC

Orders == {"<", "<=", ">", ">=", "><"}
Sound == [k |-> "ok"]
BlameArg(v) == [k |-> "arg", b |-> v.b, e |-> v.e]
BlameCmp(c) == [k |-> "cmp", b |-> c.b, e |-> c.e]

AllowedTypes(op) ==
    IF op \in Orders THEN {"integer", "float", "timestamp"}
    ELSE IF op = "~" THEN {"string", "regex", "boolean"}
    ELSE {"integer", "float", "timestamp", "string", "regex", "boolean", "netaddr"}

ArityOk(op, n) ==
    CASE op \in {"exists", "null"} -> n = 0
      [] op = "><" -> n = 2
      [] op \in {"<", "<=", ">", ">="} -> n = 1
      [] OTHER -> n >= 1

(* Two arguments are the same if they are printed the same.  Integers and
   timestamps are printed as written, decimals in their plain form, a bare
   address as a /32 block. *)
Printed(s, v) ==
    CASE v.ty = "integer" -> <<"n", SubSeq(s, v.b, v.e - 1)>>
      [] v.ty = "float" -> <<"n", IF NegZero(SubSeq(s, v.b, v.e - 1), v.v) THEN <<MINUS, 48>> ELSE PlainText(v.v)>>
      [] v.ty = "string" -> <<"s", v.v>>
      [] v.ty = "regex" -> <<"r", v.src>>
      [] v.ty = "boolean" -> <<"b", v.v>>
      [] v.ty = "timestamp" -> <<"t", SubSeq(s, v.b, v.e - 1)>>
      [] v.ty = "netaddr" -> <<"a", Append(v.v.o, v.v.bits)>>
Clash(op, x, y) == op = "==" /\ y.ty = "boolean" /\ x.ty = "boolean" /\ y.ty = "boolean" /\ x.v # y.v

FirstIdx(n, P(_)) ==
    LET is == {i \in 1..n : P(i)}
    IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

Increasing(x, y) ==
    IF x.ty = "timestamp" THEN CmpTime(x.v, y.v) < 0 ELSE CmpNum(x.v, y.v) < 0

Check(s, c) ==
    LET n == Len(c.vs)
        badType == FirstIdx(n, LAMBDA i : c.vs[i].ty \notin AllowedTypes(c.op))
        texts == TLCEval([i \in 1..n |-> Printed(s, c.vs[i])])
        \* numbers with more digits than a float holds: their equality is left open
        vague == \E i \in 1..n : (c.vs[i].ty = "float" \/ (c.vs[i].ty = "integer" /\ c.op = "><")) /\ ~Exact(c.vs[i].v)
                                 /\ \E j \in 1..n : j # i /\ c.vs[j].ty \in {"integer", "float"} /\ ~Apart(c.vs[i].v, c.vs[j].v)
        repeats == Cardinality({texts[i] : i \in 1..n}) < n
        again == FirstIdx(n, LAMBDA i : \E j \in 1..(i - 1) : (repeats /\ texts[i] = texts[j]) \/ Clash(c.op, c.vs[i], c.vs[j]))
    IN IF badType # 0 THEN BlameArg(c.vs[badType])
       ELSE IF ~ArityOk(c.op, n) THEN BlameCmp(c)
       ELSE IF n > 1 /\ vague THEN Und
       ELSE IF again # 0 THEN BlameArg(c.vs[again])
       ELSE IF c.op = "><" THEN
            IF (c.vs[1].ty = "timestamp") # (c.vs[2].ty = "timestamp") THEN BlameArg(c.vs[2])
            ELSE IF Increasing(c.vs[1], c.vs[2]) THEN Sound ELSE BlameArg(c.vs[2])
       ELSE Sound

RECURSIVE CheckTree(_, _)
CheckTree(s, n) ==
    CASE n.t = "cmp" -> Check(s, n)
      [] n.t = "not" -> CheckTree(s, n.x)
      [] OTHER -> LET a == CheckTree(s, n.l) IN IF a.k # "ok" THEN a ELSE CheckTree(s, n.r)

(* The outcome of submitting a text:
   "ok" n / "no" / "val" at / "und" / "arg" b e / "cmp" b e *)
Submit(s) ==
    LET r == ParseText(s) IN
    IF r.k # "ok" THEN r
    ELSE LET c == CheckTree(s, r.n) IN IF c.k = "ok" THEN r ELSE c
=============================================================================
