------------------------------ MODULE MC_Stats ------------------------------
(***************************************************************************)
(* Every small query on every short sequence of documents, with the counts *)
(* after each.                                                             *)
(***************************************************************************)
EXTENDS Cases

MaxLeaves == Bound("LEAVES", 3)
MaxDocs == Bound("DOCS", 2)

VARIABLES f, hist, st          \* the query, the documents so far, the counts

LeafTexts == {X("a:true"), X("b:true")}
Worlds == SUBSET {1, 2}
DocOf(w) == Obj(<<Mem(X("a"), Boo(1 \in w)), Mem(X("b"), Boo(2 \in w))>>)
BAD == {3}                     \* stands for something that is not JSON

Tree(g) == Submit(Written(g, 0)).n
Init == f \in {Leaf(l) : l \in LeafTexts} /\ hist = <<>> /\ st = ZeroStats(Tree(f))
Next ==
    \/ /\ hist = <<>>
       /\ f' \in {g \in Grow(f, LeafTexts) : Len(FLeaves(g)) <= MaxLeaves /\ FNots(g) <= 1}
       /\ st' = ZeroStats(Tree(f')) /\ UNCHANGED hist
    \/ /\ Len(hist) < MaxDocs
       /\ \E w \in Worlds \cup {BAD} :
            /\ hist' = Append(hist, w)
            /\ st' = IF w = BAD THEN st ELSE Count(Tree(f), DocOf(w), st).st
       /\ UNCHANGED f
Spec == Init /\ [][Next]_<<f, hist, st>>

Good == {i \in 1..Len(hist) : hist[i] # BAD}

RECURSIVE Truth(_, _)
Truth(g, w) ==
    CASE g.t = "leaf" -> IF g.txt = X("a:true") THEN 1 \in w ELSE 2 \in w
      [] g.t = "not" -> ~Truth(g.x, w)
      [] g.t = "and" -> Truth(g.l, w) /\ Truth(g.r, w)
      [] g.t = "or" -> Truth(g.l, w) \/ Truth(g.r, w)

(* every clause is counted for the documents that reach it *)
RECURSIVE Fits(_, _, _)
Fits(g, s, is) ==
    /\ s.c = Cardinality(is)
    /\ s.m = Cardinality({i \in is : Truth(g, hist[i])})
    /\ CASE g.t = "leaf" -> s.ch = <<>>
         [] g.t = "not" -> Len(s.ch) = 1 /\ Fits(g.x, s.ch[1], is)
         [] OTHER -> /\ Len(s.ch) = 2
                     /\ Fits(g.l, s.ch[1], is)
                     /\ Fits(g.r, s.ch[2], {i \in is : Truth(g.l, hist[i]) = (g.t = "and")})
Reached == Fits(f, st, Good)

Cases ==
    hist # <<>> =>
    Emit([k |-> "stats", q |-> Written(f, 0),
          steps |-> [i \in 1..Len(hist) |-> [bad |-> hist[i] = BAD, d |-> DocOf(IF hist[i] = BAD THEN {} ELSE hist[i])]]])
=============================================================================
