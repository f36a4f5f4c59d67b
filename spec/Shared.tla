------------------------------- MODULE Shared -------------------------------
(***************************************************************************)
(* One matcher used by several callers at once.  A history is a sequence   *)
(* of calls [kind: "match"/"stats", r, st, inv, ret, alone, one] with the   *)
(* times at which they were made and returned, and the statistics at the   *)
(* end.                                                                    *)
(***************************************************************************)
EXTENDS Stats

RECURSIVE AddStats(_, _)
AddStats(x, y) ==
    [nm |-> x.nm, c |-> x.c + y.c, m |-> x.m + y.m, ch |-> [k \in 1..Len(x.ch) |-> AddStats(x.ch[k], y.ch[k])]]

(* the same nodes *)
RECURSIVE Alike(_, _)
Alike(x, y) == x.nm = y.nm /\ Len(x.ch) = Len(y.ch) /\ \A k \in 1..Len(x.ch) : Alike(x.ch[k], y.ch[k])

(* counts of the matches whose index satisfies P, starting from nothing *)
RECURSIVE SumOver(_, _, _, _)
SumOver(per, is, i, acc) ==
    IF i > Len(per) THEN acc
    ELSE SumOver(per, is, i + 1, IF i \in is THEN TLCEval(AddStats(acc, per[i])) ELSE acc)

(* node-wise at most *)
RECURSIVE NoMore(_, _)
NoMore(x, y) ==
    /\ x.c <= y.c /\ x.m <= y.m
    /\ Len(x.ch) = Len(y.ch)
    /\ \A k \in 1..Len(x.ch) : NoMore(x.ch[k], y.ch[k])
RECURSIVE Sane(_)
Sane(x) == x.m >= 0 /\ x.m <= x.c /\ \A k \in 1..Len(x.ch) : Sane(x.ch[k])

(* "" if the history is explained, else what is wrong with it.  Each match
   comes with what it answers and counts on a matcher of its own. *)
HistoryFlaw(h) ==
    LET cs == h.calls
        ms == {i \in 1..Len(cs) : cs[i].kind = "match"}
        ss == {i \in 1..Len(cs) : cs[i].kind = "stats"}
        per == [i \in 1..Len(cs) |-> cs[i].one]
        sum(is) == SumOver(per, is, 1, h.zero)
    IN IF \E i \in ms : ~Alike(h.zero, cs[i].one) THEN "und"
       ELSE IF ~Alike(h.zero, h.final) \/ \E i \in ss : ~Alike(h.zero, cs[i].st) THEN "shape"
       ELSE IF \E i \in ms : cs[i].r # cs[i].alone THEN "answer"
       ELSE IF sum(ms) # h.final THEN "final"
       ELSE IF \E i \in ss : ~Sane(cs[i].st) THEN "insane"
       ELSE IF \E i \in ss : ~NoMore(sum({j \in ms : cs[j].ret < cs[i].inv}), cs[i].st) THEN "missing"
       ELSE IF \E i \in ss : ~NoMore(cs[i].st, sum({j \in ms : cs[j].inv < cs[i].ret})) THEN "surplus"
       ELSE IF \E i \in ss : \E j \in ss : cs[i].ret < cs[j].inv /\ ~NoMore(cs[i].st, cs[j].st) THEN "decrease"
       ELSE ""
=============================================================================
