------------------------------ MODULE MC_Bool ------------------------------
(***************************************************************************)
(* Every Boolean combination of a few comparisons, on every document that  *)
(* makes them true or false.                                               *)
(***************************************************************************)
EXTENDS Cases

MaxLeaves == Bound("LEAVES", 3)
MaxNots == Bound("NOTS", 2)

VARIABLE f

Keys == <<X("k0"), X("k1")>>
LeafOf(k) == k \o X(":true")
LeafTexts == {LeafOf(Keys[i]) : i \in 1..Len(Keys)}

(* documents: which of the fields are true *)
Worlds == SUBSET (1..Len(Keys))
DocOf(w) == Obj([i \in 1..Len(Keys) |-> Mem(Keys[i], Boo(i \in w))])
Docs == TLCEval([w \in Worlds |-> DocOf(w)])

Init == f \in {Leaf(l) : l \in LeafTexts}
Next == f' \in {g \in Grow(f, LeafTexts) : Len(FLeaves(g)) <= MaxLeaves /\ FNots(g) <= MaxNots}
Spec == Init /\ [][Next]_f

(* what a formula means: the worlds it holds in *)
RECURSIVE Holds(_)
Holds(g) ==
    CASE g.t = "leaf" -> {w \in Worlds : \E i \in w : LeafOf(Keys[i]) = g.txt}
      [] g.t = "not" -> Worlds \ Holds(g.x)
      [] g.t = "and" -> Holds(g.l) \cap Holds(g.r)
      [] g.t = "or" -> Holds(g.l) \cup Holds(g.r)

Texts2 == <<Written(f, 0), Grouped(f)>>

(* both ways to write it are read as the formula, and mean the same as it *)
ReadBack ==
    \A k \in 1..2 :
        LET r == TLCEval(Submit(Texts2[k])) IN
        /\ r.k = "ok"
        /\ IsTree(f, r.n, Texts2[k])
        /\ \A w \in Worlds : Eval(r.n, Docs[w]) = Ans(w \in Holds(f))

(* De Morgan *)
Duals ==
    f.t \in {"and", "or"} =>
        Holds(Not(f)) = (IF f.t = "and" THEN Holds(Or(Not(f.l), Not(f.r))) ELSE Holds(And(Not(f.l), Not(f.r))))

RECURSIVE DocSeq(_)
DocSeq(ws) == IF ws = {} THEN <<>> ELSE LET w == CHOOSE w \in ws : TRUE IN <<Docs[w]>> \o DocSeq(ws \ {w})

Cases == \A k \in 1..2 : Emit([k |-> "match", q |-> Texts2[k], parts |-> FLeaves(f), docs |-> DocSeq(Worlds)])
=============================================================================
