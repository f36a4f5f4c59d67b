------------------------------ MODULE MC_Text ------------------------------
(***************************************************************************)
(* Every short search text over a few letters and wildcards, in every      *)
(* short value.                                                            *)
(***************************************************************************)
EXTENDS Cases

MaxPattern == Bound("PATTERN", 3)
MaxValue == Bound("VALUE", 3)

VARIABLE p

Pieces == {X("a"), X("B"), X("-"), X("*"), X("?"), <<BSLASH, STAR>>, <<BSLASH, QMARK>>, <<24859>>}
Init == p = <<>>
Next == Len(p) < MaxPattern /\ \E c \in Pieces : p' = Append(p, c)
Spec == Init /\ [][Next]_p

Pattern == ConcatAll(p)
Letters == {97, 66, MINUS, STAR, 24859, SP}
Values == TLCEval(UNION {[1..n -> Letters] : n \in 0..MaxValue})

(* p[k..] can be laid out over s[i..j] *)
RECURSIVE Lies(_, _, _, _)
Lies(k, s, i, j) ==
    IF k > Len(p) THEN i = j + 1
    ELSE IF p[k] = <<STAR>> THEN \E m \in i..(j + 1) : Lies(k + 1, s, m, j)
    ELSE /\ i <= j
         /\ \/ p[k] = <<QMARK>>
            \/ Lower(p[k][Len(p[k])]) = Lower(s[i])
         /\ Lies(k + 1, s, i + 1, j)

WordAt(s, i) == i >= 1 /\ i <= Len(s) /\ IsWord(s[i])
IsEdge(piece) == piece \in {<<STAR>>, <<QMARK>>} \/ IsWord(piece[Len(piece)])
Ascii == AllOf(Pattern, IsAscii)

Found(s) ==
    \E i \in 1..(Len(s) + 1) : \E j \in (i - 1)..Len(s) :
        /\ Lies(1, s, i, j)
        /\ (Ascii /\ p # <<>> /\ IsEdge(p[1])) => (WordAt(s, i - 1) # WordAt(s, i))
        /\ (Ascii /\ p # <<>> /\ IsEdge(p[Len(p)])) => (WordAt(s, j) # WordAt(s, j + 1))

Declared == \A s \in Values : Search(Pattern, s) = Ans(Found(s))

RECURSIVE DocSeq(_)
DocSeq(ss) == IF ss = {} THEN <<>>
              ELSE LET s == CHOOSE s \in ss : TRUE IN <<Obj(<<Mem(X("a"), Str(s))>>)>> \o DocSeq(ss \ {s})
Docs == TLCEval(DocSeq(Values))
RECURSIVE Esc(_)
Esc(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = BSLASH THEN <<BSLASH, BSLASH>> ELSE <<s[1]>>) \o Esc(Tail(s))
Query1 == X("a:\"") \o Esc(Pattern) \o X("\"")
Cases == Emit([k |-> "table", qs |-> <<Query1>>, ds |-> Docs])
=============================================================================
