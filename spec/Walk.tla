-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Visitors over a syntax tree.  Nodes are numbered in reading order       *)
(* (parents before children, left before right), from 1.                   *)
(*                                                                         *)
(* A visitor is [re, ms]: for every node its reaction ("go", "skip",       *)
(* "all", "perr" or "err") and the messages it issues there, each          *)
(* [ty: "HINT"/"WARNING"/"ERROR", text, pos].                              *)
(***************************************************************************)
EXTENDS Query

RECURSIVE Size(_)
Size(n) ==
    CASE n.t = "cmp" -> 1
      [] n.t = "not" -> 1 + Size(n.x)
      [] OTHER -> 1 + Size(n.l) + Size(n.r)

Children(n, i) ==
    CASE n.t = "cmp" -> <<>>
      [] n.t = "not" -> << <<n.x, i + 1>> >>
      [] OTHER -> << <<n.l, i + 1>>, <<n.r, i + 1 + Size(n.l)>> >>

(* One visitor: [seen: numbers of the nodes shown, end: "" or how it stopped]. *)
RECURSIVE WalkAll(_, _, _, _)
RECURSIVE WalkFrom(_, _, _)
WalkFrom(v, n, i) ==
    LET r == v.re[i] IN
    CASE r = "skip" -> [seen |-> <<i>>, end |-> ""]
      [] r \in {"all", "perr", "err"} -> [seen |-> <<i>>, end |-> r]
      [] OTHER -> WalkAll(v, Children(n, i), 1, <<i>>)
WalkAll(v, cs, k, seen) ==
    IF k > Len(cs) THEN [seen |-> seen, end |-> ""]
    ELSE LET w == WalkFrom(v, cs[k][1], cs[k][2])
             all == seen \o w.seen
         IN IF w.end # "" THEN [seen |-> all, end |-> w.end]
            ELSE WalkAll(v, cs, k + 1, all)

(* the messages issued during a walk, in order *)
RECURSIVE Issued(_, _, _)
Issued(v, seen, k) == IF k > Len(seen) THEN <<>> ELSE v.ms[seen[k]] \o Issued(v, seen, k + 1)

FirstError(ms) == FirstIdx(Len(ms), LAMBDA k : ms[k].ty = "ERROR")

(* All visitors one after the other:
   [seen: per visitor, ms: per visitor, r: "ok" / "perr" / "err" / "tape",
    who: the failing visitor, at: the failing node or message] *)
RECURSIVE RunVisitors(_, _, _, _)
RunVisitors(vs, n, k, acc) ==
    IF k > Len(vs) THEN acc
    ELSE LET w == WalkFrom(vs[k], n, 1)
             ms == Issued(vs[k], w.seen, 1)
             fe == FirstError(ms)
             hard == w.end \in {"perr", "err"}
             next == [acc EXCEPT !.seen[k] = w.seen, !.ms[k] = ms]
         IN IF hard THEN [next EXCEPT !.r = w.end, !.who = k, !.at = w.seen[Len(w.seen)]]
            ELSE IF fe # 0 THEN [next EXCEPT !.r = "tape", !.who = k, !.at = fe]
            ELSE RunVisitors(vs, n, k + 1, next)

Nobody(vs) == [seen |-> [k \in 1..Len(vs) |-> <<>>], ms |-> [k \in 1..Len(vs) |-> <<>>],
               r |-> "ok", who |-> 0, at |-> 0]
Visited(vs, n) == RunVisitors(vs, n, 1, Nobody(vs))

(* Message texts: %s, %d and %v take the next argument, %% is a percent sign. *)
PERCENT == 37
RECURSIVE Format(_, _, _, _)
Format(t, i, args, k) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] # PERCENT THEN <<t[i]>> \o Format(t, i + 1, args, k)
    ELSE IF t[i + 1] = PERCENT THEN <<PERCENT>> \o Format(t, i + 2, args, k)
    ELSE args[k] \o Format(t, i + 2, args, k + 1)
=============================================================================
