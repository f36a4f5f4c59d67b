----------------------------- MODULE Highlight -----------------------------
(***************************************************************************)
(* How a message about part of a query is shown.  q is the query, o the    *)
(* index (from 0) of the first marked character, n the number of marked    *)
(* characters, w the width limit (0: none).                                *)
(***************************************************************************)
EXTENDS Chars

Dots3 == <<DOT, DOT, DOT>>
Cut(q, a, b) == SubSeq(q, a + 1, b)      \* characters a .. b-1, from 0

(* the character index of a byte offset, -1 if it is not at a character *)
RECURSIVE CharIdx(_, _, _, _)
CharIdx(q, off, i, sum) ==
    IF sum = off THEN i
    ELSE IF sum > off \/ i >= Len(q) THEN -1
    ELSE CharIdx(q, off, i + 1, sum + Bytes(q[i + 1]))

(* acceptable windows [lo, ro] *)
Windows(q, o, n, w) ==
    LET len == Len(q)
        last == MinN(o + n, len)             \* marked text that exists
    IN IF w <= 0 \/ len <= w THEN {<<0, len>>}
       ELSE {<<lo, ro>> \in (0..o) \X (o..len) :
               /\ ro - lo <= w
               /\ (o < len /\ n > 0 => o < ro)
               /\ (last - o <= w => last <= ro)}

Show(q, lo, ro) ==
    (IF lo > 0 THEN Dots3 ELSE <<>>) \o Cut(q, lo, ro) \o (IF ro < Len(q) THEN Dots3 ELSE <<>>)

(* v: [hl, query, pre, mid, post, off, n] as shown *)
ShownAs(v, q, o, n, lo, ro) ==
    LET end == MinN(o + n, ro)
        lead == IF lo > 0 THEN Dots3 ELSE <<>>
        trail == IF ro < Len(q) THEN Dots3 ELSE <<>>
    IN /\ v.hl
       /\ v.query = Show(q, lo, ro)
       /\ v.pre = lead \o Cut(q, lo, o)
       /\ v.mid = Cut(q, o, end)
       /\ v.post = Cut(q, end, ro) \o trail
       /\ v.off = o - lo + Len(lead)
       /\ v.n = MaxN(end - o, 1)

NoMarker(v, q) == ~v.hl /\ v.query = q /\ v.pre = q /\ v.mid = <<>> /\ v.post = <<>>

(* Which window was used can be read off the excerpt: ro - lo and off tell. *)
ShownWell(v, q, o, n, w) ==
    IF o < 0 THEN NoMarker(v, q)
    ELSE \E win \in Windows(q, o, n, w) :
            /\ (v.off = o - win[1] \/ v.off = o - win[1] + 3)
            /\ ShownAs(v, q, o, n, win[1], win[2])
=============================================================================
