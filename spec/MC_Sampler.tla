----------------------------- MODULE MC_Sampler -----------------------------
(***************************************************************************)
(* Documents of a few nested objects and arrays, shown to a sampler one by *)
(* one, with resets and nonsense in between.                               *)
(***************************************************************************)
EXTENDS Cases

MaxDepth == Bound("DEPTH", 2)
MaxSteps == Bound("STEPS", 1)
OddKeys == Bound("ODDKEYS", 0) = 1

VARIABLES doc, depth, hist, st, max

A == X("a")
B == IF OddKeys THEN X("b.c") ELSE X("b")
C == IF OddKeys THEN <<QUOTE, 233>> ELSE X("c")
One == Num(X("1"))
Seeds == {One, Nul, Arr(<<>>), Obj(<<>>), Arr(<<One, Str(X("x"))>>)}
Sides == {One, Obj(<<Mem(C, One)>>), Arr(<<Obj(<<Mem(A, Nul)>>), One>>)}
Around(d) ==
    {Obj(<<Mem(A, d)>>), Arr(<<d>>)}
    \cup {Obj(<<Mem(A, d), Mem(B, s)>>) : s \in Sides}
    \cup {Obj(<<Mem(B, s), Mem(C, d)>>) : s \in Sides}
    \cup {Arr(<<d, s>>) : s \in Sides}

Limits == IF Bound("STEPS", 1) = 1 THEN {-1, 0, 1, 2} ELSE {-1, 1}
Step(op, d) == [op |-> op, d |-> d]
Init == doc \in Seeds /\ depth = 0 /\ hist = <<>> /\ st = Fresh /\ max \in Limits
Next ==
    \/ /\ depth < MaxDepth /\ doc' \in Around(doc) /\ depth' = depth + 1 /\ UNCHANGED <<hist, st, max>>
       /\ hist = <<>>
    \/ /\ Len(hist) < MaxSteps /\ doc.t \in {"obj", "arr"}
       /\ \/ hist' = Append(hist, Step("sample", doc)) /\ st' = Sampled(st, doc, max)
          \/ \E s \in Around(One) : hist # <<>> /\ hist' = Append(hist, Step("sample", s)) /\ st' = Sampled(st, s, max)
          \/ hist # <<>> /\ hist' = Append(hist, Step("reset", Nul)) /\ st' = Fresh
          \/ hist # <<>> /\ hist' = Append(hist, Step("bad", Nul)) /\ st' = st
       /\ UNCHANGED <<doc, depth, max>>
Spec == Init /\ [][Next]_<<doc, depth, hist, st, max>>

(* the places where scalars are: names and numbers that lead to them *)
RECURSIVE Spots(_)
Spots(v) ==
    CASE v.t = "obj" -> UNION {{<<v.kv[k].k>> \o a : a \in Spots(v.kv[k].v)} : k \in 1..Len(v.kv)}
      [] v.t = "arr" -> UNION {{<< <<-j>> >> \o a : a \in Spots(v.e[j])} : j \in 1..Len(v.e)}
      [] OTHER -> {<<>>}
IsNumber(step) == Len(step) = 1 /\ step[1] < 0
NamesOf(a) == SelectSeq(a, LAMBDA s : ~IsNumber(s))
Counted(a) == /\ NamesOf(a) # <<>>
              /\ (max < 0 \/ Len(NamesOf(a)) <= max)
              /\ \A i \in 1..(Len(a) - 1) : ~(IsNumber(a[i]) /\ IsNumber(a[i + 1]))

(* the documents that count: those sampled after the last reset *)
LastReset == LET rs == {i \in 1..Len(hist) : hist[i].op = "reset"} IN
             IF rs = {} THEN 0 ELSE CHOOSE i \in rs : \A j \in rs : j <= i
Live == {i \in 1..Len(hist) : i > LastReset /\ hist[i].op = "sample"}

Declared ==
    LET all == TLCEval(UNION {{<<i, a>> : a \in {b \in Spots(hist[i].d) : Counted(b)}} : i \in Live})
        paths == {NamesOf(x[2]) : x \in all}
    IN /\ st.docs = Cardinality(Live)
       /\ Known(st) = paths
       /\ \A p \in paths : st.cnt[p] = Cardinality({x \in all : NamesOf(x[2]) = p})
Thresholds ==
    /\ AtThreshold(st, 0) = Known(st)
    /\ \A k \in {0, 25, 50, 75, 100, 150} : AtThreshold(st, k + 25) \subseteq AtThreshold(st, k)

Cases ==
    hist # <<>> => Emit([k |-> "sampler", max |-> max,
                         steps |-> [i \in 1..Len(hist) |-> [op |-> hist[i].op, d |-> IF hist[i].op = "sample" THEN hist[i].d ELSE Obj(<<>>)]]])
=============================================================================
