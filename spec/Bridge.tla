------------------------------- MODULE Bridge -------------------------------
(***************************************************************************)
(* What the browser bridge tells a page about a query: the tree, or one    *)
(* error, and hints and warnings, all with the range of the query they     *)
(* are about.  Ranges count UTF-16 code units, from 0.                     *)
(***************************************************************************)
EXTENDS Advice

(* code units before character c (counted from 0) *)
Units(q, c) == c + Cardinality({i \in 1..c : q[i] > 65535})
Range16(q, b, e) == <<Units(q, b), Units(q, e)>>

(* the advice of the bridge: [ty, b, e] with b, e as in the parsed query; the
   deprecated use of ~ with a regular expression is held against the whole
   comparison, and all exact timestamps are warned of *)
BridgeValue(c, v) ==
    LET at(tys) == [j \in 1..Len(tys) |-> [ty |-> tys[j], b |-> v.b, e |-> v.e]] IN
    CASE v.ty = "regex" ->
           LET h == ReHints(v) IN
           IF h.k # "ok" THEN h
           ELSE [k |-> "ok", ms |-> (IF c.op = "~" THEN <<[ty |-> "WARNING", b |-> 0, e |-> 0]>> ELSE <<>>) \o at(h.ty)]
      [] v.ty = "timestamp" -> [k |-> "ok", ms |-> at(IF c.op = "==" THEN <<"WARNING">> ELSE <<>>)]
      [] OTHER -> [k |-> "ok", ms |-> <<>>]

RECURSIVE BridgeCmp(_, _), BridgeAll(_, _)
BridgeCmp(c, i) ==
    IF i > Len(c.vs) THEN [k |-> "ok", ms |-> <<>>]
    ELSE LET a == BridgeValue(c, c.vs[i])
             r == BridgeCmp(c, i + 1)
         IN IF a.k # "ok" \/ r.k # "ok" THEN Und ELSE [k |-> "ok", ms |-> a.ms \o r.ms]
BridgeAll(ls, i) ==
    IF i > Len(ls) THEN [k |-> "ok", ms |-> <<>>]
    ELSE LET a == BridgeCmp(ls[i], 1)
             r == BridgeAll(ls, i + 1)
         IN IF a.k # "ok" \/ r.k # "ok" THEN Und ELSE [k |-> "ok", ms |-> a.ms \o r.ms]

BridgeKind(ty) == IF ty = "WARNING" THEN "warning" ELSE "hint"

(* a message of the bridge is the one wanted; those about a comparison are
   about something in the query *)
SameNote(q, w, m) ==
    /\ m.ty = BridgeKind(w.ty) /\ m.told
    /\ IF w.b = 0 THEN 0 <= m.s /\ m.s < m.e /\ m.e <= Units(q, Len(q))
       ELSE <<m.s, m.e>> = Range16(q, w.b - 1, w.e - 1)

(* q, r (library: ok/err), b and len (its error), up, ast, ms.  What is wrong
   with the answer: "" nothing, "und" not decided *)
BridgeFlaw(e) ==
    LET s == Submit(e.q)
        n == Len(e.q)
        t == ParseText(e.q)
        (* not an incomplete query: one value, or the arguments of an operator, are wrong *)
        complete == t.k = "ok" \/ (t.k = "val" /\ t.of # "field")
        inside(m) == 0 <= m.s /\ m.s <= m.e /\ m.e <= Units(e.q, n)
    IN IF e.r = "P" THEN "und"
       ELSE IF ~e.up THEN "no answer"
       ELSE IF e.r = "err"
       THEN IF e.ast # "none" \/ Len(e.ms) # 1 THEN "not one error"
            ELSE LET m == e.ms[1] IN
                 IF m.ty # "error" \/ ~m.told THEN "not one error"
                 ELSE IF e.b < 0 THEN "und"
                 ELSE IF /\ inside(m)
                         /\ \/ <<m.s, m.e>> = Range16(e.q, MinN(e.b, n), MinN(e.b + e.len, n))
                            \/ ~complete /\ <<m.s, m.e>> = Range16(e.q, n - 1, n)
                      THEN "" ELSE "error elsewhere"
       ELSE IF e.ast # "same" THEN "not the tree of the library"
       ELSE IF ~AllOf(e.ms, LAMBDA m : m.ty \in {"hint", "warning"} /\ m.told /\ inside(m)) THEN "not hints and warnings"
       ELSE IF s.k # "ok" THEN "und"
       ELSE LET a == BridgeAll(Leaves(s.n), 1) IN
            IF a.k # "ok" THEN "und"
            ELSE LET many(w) == Cardinality({i \in 1..Len(a.ms) : a.ms[i] = w})
                     given(w) == Cardinality({i \in 1..Len(e.ms) : SameNote(e.q, w, e.ms[i])})
                 IN IF /\ Len(a.ms) = Len(e.ms)
                       /\ \A i \in 1..Len(a.ms) : IF a.ms[i].b = 0 THEN given(a.ms[i]) >= many(a.ms[i]) ELSE given(a.ms[i]) = many(a.ms[i])
                    THEN "" ELSE "other advice"
=============================================================================
