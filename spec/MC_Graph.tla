------------------------------ MODULE MC_Graph ------------------------------
(***************************************************************************)
(* Every small query with comparisons of several kinds, and its drawing.   *)
(***************************************************************************)
EXTENDS Cases

MaxLeaves == Bound("LEAVES", 3)

VARIABLE f

LeafTexts == {X("a:1"), X("b.\"c d\":(\"x\",/y/,2.50)"), X("c:exists")}
Init == f \in {Leaf(l) : l \in LeafTexts}
Next == f' \in {g \in Grow(f, LeafTexts) : Len(FLeaves(g)) <= MaxLeaves /\ FNots(g) <= 1}
Spec == Init /\ [][Next]_f

Text == Written(f, 0)
(* a drawing: nodes in reading order, named by their numbers; 0 is the start *)
Some(set) == IF set = {} THEN <<>> ELSE CHOOSE t \in set : TRUE
RECURSIVE NodesOf(_, _), EdgesOf(_, _)
NodesOf(n, i) ==
    CASE n.t = "cmp" -> <<[id |-> i, ty |-> "cmp", cells |-> LET sh == Shows(Text, n) IN [k \in 1..Len(sh) |-> Some(sh[k])]]>>
      [] n.t = "not" -> <<[id |-> i, ty |-> "NOT", cells |-> <<K_NOT>>]>> \o NodesOf(n.x, i + 1)
      [] OTHER -> <<[id |-> i, ty |-> IF n.t = "and" THEN "AND" ELSE "OR", cells |-> <<>>]>>
                  \o NodesOf(n.l, i + 1) \o NodesOf(n.r, i + 1 + Size(n.l))
EdgesOf(n, i) ==
    CASE n.t = "cmp" -> <<>>
      [] n.t = "not" -> << <<i, i + 1>> >> \o EdgesOf(n.x, i + 1)
      [] OTHER -> << <<i, i + 1>>, <<i, i + 1 + Size(n.l)>> >> \o EdgesOf(n.l, i + 1) \o EdgesOf(n.r, i + 1 + Size(n.l))
Draw(n) == [nodes |-> <<[id |-> 0, ty |-> "start", cells |-> <<>>]>> \o NodesOf(n, 1), edges |-> << <<0, 1>> >> \o EdgesOf(n, 1)]

(* a drawing made this way is one; with an edge missing or a clause of another kind it is not *)
Faithful ==
    LET n == Submit(Text).n
        g == Draw(n)
    IN /\ Drawing(g, Text, n)
       /\ ~Drawing([g EXCEPT !.edges = Tail(@)], Text, n)
       /\ \A i \in 2..Len(g.nodes) :
            LET other == CASE g.nodes[i].ty = "AND" -> "OR" [] g.nodes[i].ty = "OR" -> "AND" [] OTHER -> "AND" IN
            ~Drawing([g EXCEPT !.nodes[i].ty = other], Text, n)

Cases == Emit([k |-> "graph", qs |-> <<Text, Grouped(f)>>])
=============================================================================
