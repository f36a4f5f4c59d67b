------------------------------- MODULE Handed -------------------------------
(***************************************************************************)
(* One query text, handed to the parser in several ways.  The text is all  *)
(* that counts: where it is cut into pieces, and how a reader says that it *)
(* has ended, is nothing the outcome may depend on.  A reader that fails   *)
(* has not delivered a query, so nothing comes of it.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* outcomes: r ("ok", "err", others), tree, leaves, p *)
SameOutcome(a, b) == a.r = b.r /\ a.tree = b.tree /\ a.leaves = b.leaves /\ a.p = b.p

(* parts (comparisons it was put together from, 0: not known), base (the
   outcome of the text as a whole), ways: [rest (all of it came), o] *)
HandedFlaw(e) ==
    IF e.base.r \notin {"ok", "err"} THEN "an outcome"
    ELSE IF e.parts > 0 /\ (e.base.r # "ok" \/ e.base.leaves # e.parts) THEN "all comparisons"
    ELSE IF \E i \in 1..Len(e.ways) : e.ways[i].rest /\ ~SameOutcome(e.ways[i].o, e.base) THEN "the same outcome"
    ELSE IF \E i \in 1..Len(e.ways) : ~e.ways[i].rest /\ e.ways[i].o.r # "err" THEN "an error"
    ELSE ""
=============================================================================
