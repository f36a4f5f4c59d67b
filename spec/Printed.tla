------------------------------- MODULE Printed ------------------------------
(***************************************************************************)
(* The printed forms of trees, and the names of comparisons in statistics. *)
(* Nothing is said about how they look; only that different things look    *)
(* different and equal things look equal.                                  *)
(***************************************************************************)
EXTENDS Walk

(* "same", "diff", or "und": one thing in two spellings, which may be kept
   apart or not *)
All3(xs) == IF "diff" \in xs THEN "diff" ELSE IF "und" \in xs THEN "und" ELSE "same"
Spelled(b, eq) == IF ~b THEN "diff" ELSE IF eq THEN "same" ELSE "und"

IsNumeric(v) == v.ty \in {"integer", "float"}
Value3(s, v, t, w) ==
    LET eq == v.ty = w.ty /\ SubSeq(s, v.b, v.e - 1) = SubSeq(t, w.b, w.e - 1) IN
    IF IsNumeric(v) /\ IsNumeric(w)
    THEN IF eq THEN "same"
         ELSE IF CmpNum(v.v, w.v) = 0 THEN "und"
         ELSE IF v.ty = "integer" /\ w.ty = "integer" THEN "diff"
         ELSE IF ~Apart(v.v, w.v) /\ ~(Exact(v.v) /\ Exact(w.v)) THEN "und" ELSE "diff"
    ELSE IF v.ty # w.ty THEN "diff"
    ELSE CASE v.ty = "string" -> Spelled(v.v = w.v, TRUE)
           [] v.ty = "boolean" -> Spelled(v.v = w.v, TRUE)
           [] v.ty = "regex" -> Spelled(v.src = w.src, eq)
           [] v.ty = "timestamp" -> Spelled(v.day = w.day /\ v.v.d = w.v.d /\ v.v.s = w.v.s /\ v.v.ns = w.v.ns, eq)
           [] v.ty = "netaddr" -> Spelled(v.v.o = w.v.o /\ v.v.bits = w.v.bits, eq)

Comparison3(s, c, t, d) ==
    IF c.op # d.op \/ c.f # d.f \/ Len(c.vs) # Len(d.vs) THEN "diff"
    ELSE All3({Value3(s, c.vs[i], t, d.vs[i]) : i \in 1..Len(c.vs)})

RECURSIVE Tree3(_, _, _, _)
Tree3(s, n, t, m) ==
    IF n.t # m.t THEN "diff"
    ELSE CASE n.t = "cmp" -> Comparison3(s, n, t, m)
           [] n.t = "not" -> Tree3(s, n.x, t, m.x)
           [] OTHER -> All3({Tree3(s, n.l, t, m.l), Tree3(s, n.r, t, m.r)})

RECURSIVE CmpsOf(_)
CmpsOf(n) ==
    CASE n.t = "cmp" -> <<n>>
      [] n.t = "not" -> CmpsOf(n.x)
      [] OTHER -> CmpsOf(n.l) \o CmpsOf(n.r)

Agrees(k, eq) == (k = "same" => eq) /\ (k = "diff" => ~eq)

(* ps: sequence of [q, n (its tree), txt (as printed), names (of its
   comparisons)] *)
PrintedFlaw(ps) ==
    LET cs == TLCEval([i \in 1..Len(ps) |-> CmpsOf(ps[i].n)]) IN
    IF ~(\A i, j \in 1..Len(ps) : Agrees(Tree3(ps[i].q, ps[i].n, ps[j].q, ps[j].n), ps[i].txt = ps[j].txt))
    THEN "trees"
    ELSE IF ~(\A i, j \in 1..Len(ps) : \A a \in 1..Len(cs[i]) : \A b \in 1..Len(cs[j]) :
                Agrees(Comparison3(ps[i].q, cs[i][a], ps[j].q, cs[j][b]), ps[i].names[a] = ps[j].names[b]))
    THEN "names"
    ELSE ""
=============================================================================
