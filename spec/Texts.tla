------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* String search: case-insensitive, with wildcards, ASCII texts as whole   *)
(* words.                                                                  *)
(***************************************************************************)
EXTENDS Nets

(* The search text as a sequence of items: "chr" c, "one" or "run". *)
RECURSIVE Items(_, _)
Items(p, i) ==
    IF i > Len(p) THEN <<>>
    ELSE IF p[i] = BSLASH /\ At(p, i + 1) \in {QMARK, STAR}
         THEN <<[k |-> "chr", c |-> p[i + 1]]>> \o Items(p, i + 2)
    ELSE IF p[i] = QMARK THEN <<[k |-> "one", c |-> 0]>> \o Items(p, i + 1)
    ELSE IF p[i] = STAR THEN <<[k |-> "run", c |-> 0]>> \o Items(p, i + 1)
    ELSE <<[k |-> "chr", c |-> Lower(p[i])]>> \o Items(p, i + 1)

IsWild(it) == it.k # "chr"

(* between positions i - 1 and i of the text there is a word boundary *)
Boundary(s, i) == IsWord(At(s, i - 1)) # IsWord(At(s, i))

(* this end of the search text has to be at a word boundary *)
Bounded(it) == IsWild(it) \/ IsWord(it.c)

(* positions reachable from the set ps by consuming item it *)
StepItem(s, it, ps) ==
    CASE it.k = "chr" -> {i + 1 : i \in {j \in ps : Lower(At(s, j)) = it.c}}
      [] it.k = "one" -> {i + 1 : i \in {j \in ps : j <= Len(s)}}
      [] it.k = "run" -> {j \in 1..(Len(s) + 1) : \E i \in ps : i <= j}

RECURSIVE RunItems(_, _, _, _)
RunItems(s, its, n, ps) ==
    IF n > Len(its) \/ ps = {} THEN ps ELSE RunItems(s, its, n + 1, StepItem(s, its[n], ps))

Occurs(s, its, words) ==
    LET n == Len(its)
        starts == {i \in 1..(Len(s) + 1) :
                     (words /\ n > 0 /\ Bounded(its[1])) => Boundary(s, i)}
        ends == RunItems(s, its, 1, starts)
    IN IF words /\ n > 0 /\ Bounded(its[n]) THEN \E i \in ends : Boundary(s, i) ELSE ends # {}

(* Is p found in s?  Undecided: line breaks under wildcards, letters with
   unusual case folding, and non-ASCII text other than CJK ideographs when the
   search text is not ASCII itself. *)
Search(p, s) ==
    LET its == Items(p, 1)
        ascii == AllOf(p, IsAscii)
        wild == SomeOf(its, IsWild)
        plainOrCJK(c) == IsAscii(c) \/ IsCJK(c)
        tame(c) == c >= SP /\ c # 127
    IN IF SomeOf(s, FoldsToAscii) \/ SomeOf(p, FoldsToAscii) THEN U
       ELSE IF wild /\ ~AllOf(s, LAMBDA c : c # LF) THEN U
       ELSE IF ~ascii /\ ~(AllOf(p, plainOrCJK) /\ AllOf(s, plainOrCJK) /\ AllOf(p, tame) /\ AllOf(s, tame)) THEN U
       ELSE Ans(Occurs(s, its, ascii))
=============================================================================
