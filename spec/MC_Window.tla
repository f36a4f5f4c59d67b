----------------------------- MODULE MC_Window -----------------------------
(***************************************************************************)
(* Every part of every short query, shown with every width.                *)
(***************************************************************************)
EXTENDS Cases

MaxLen == Bound("LEN", 6)

VARIABLES len, o, n, w

Init == len = 0 /\ o = -1 /\ n = 0 /\ w = 0
Next ==
    \/ len < MaxLen /\ o = -1 /\ len' = len + 1 /\ UNCHANGED <<o, n, w>>
    \/ o = -1 /\ o' \in 0..len /\ UNCHANGED <<len, n, w>>
    \/ o >= 0 /\ w = 0 /\ n < len - o + 2 /\ n' = n + 1 /\ UNCHANGED <<len, o, w>>
    \/ w <= len + 1 /\ w' = w + 1 /\ UNCHANGED <<len, o, n>>
Spec == Init /\ [][Next]_<<len, o, n, w>>

Plain == SubSeq(X("a:1 OR b.c:22"), 1, len)
Wide == SubSeq(<<228, COLON, 28450, 128512, SP, 233, 97, 28450, 98>>, 1, MinN(len, 9))
RECURSIVE Before(_, _)
Before(q, i) == IF i <= 0 THEN 0 ELSE Bytes(q[i]) + Before(q, i - 1)

(* there is always a way to show a message, none is wider than allowed, and
   the marked text is there if it fits *)
Showable ==
    o >= 0 =>
    LET ws == Windows(Plain, o, n, w) IN
    /\ ws # {}
    /\ \A x \in ws :
         /\ (w > 0 => x[2] - x[1] <= MaxN(w, 0) \/ len <= w)
         /\ x[1] <= o /\ o <= x[2]
         /\ ShownWell([hl |-> TRUE, query |-> Show(Plain, x[1], x[2]),
                       pre |-> (IF x[1] > 0 THEN Dots3 ELSE <<>>) \o Cut(Plain, x[1], o),
                       mid |-> Cut(Plain, o, MinN(o + n, x[2])),
                       post |-> Cut(Plain, MinN(o + n, x[2]), x[2]) \o (IF x[2] < len THEN Dots3 ELSE <<>>),
                       off |-> o - x[1] + (IF x[1] > 0 THEN 3 ELSE 0), n |-> MaxN(MinN(o + n, x[2]) - o, 1)],
                      Plain, o, n, w)
    /\ CharIdx(Wide, Before(Wide, MinN(o, Len(Wide))), 0, 0) = MinN(o, Len(Wide))

Cases ==
    /\ Emit([k |-> "shown", q |-> Plain, o |-> o, n |-> n, w |-> w])
    /\ (len <= 9 => Emit([k |-> "shown", q |-> Wide, o |-> IF o < 0 THEN -1 ELSE Before(Wide, o), n |-> n, w |-> w]))
=============================================================================
