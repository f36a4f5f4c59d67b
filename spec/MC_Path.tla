------------------------------ MODULE MC_Path ------------------------------
(***************************************************************************)
(* Every document of a few nested objects and arrays with two names, and   *)
(* every path of up to three of these names.                               *)
(***************************************************************************)
EXTENDS Cases

MaxDepth == Bound("DEPTH", 3)

VARIABLES doc, depth

A == X("a")
B == X("b")
One == Num(X("1"))
Seeds == {One, Nul, Arr(<<>>), Obj(<<>>)}
Sides == {One, Nul, Obj(<<Mem(A, One)>>), Arr(<<Nul, One>>)}

Init == doc \in Seeds /\ depth = 0
Around(d) ==
    {Obj(<<Mem(A, d)>>), Obj(<<Mem(B, d)>>), Arr(<<d>>), Arr(<<d, d>>)}
    \cup {Obj(<<Mem(A, d), Mem(B, s)>>) : s \in Sides}
    \cup {Obj(<<Mem(A, s), Mem(B, d)>>) : s \in Sides}
    \cup {Arr(<<d, s>>) : s \in Sides}
    \cup {Arr(<<s, d>>) : s \in Sides}
Next == depth < MaxDepth /\ depth' = depth + 1 /\ doc' \in Around(doc)
Spec == Init /\ [][Next]_<<doc, depth>>

Paths == UNION {[1..n -> {A, B}] : n \in 1..3}

(* Addresses: sequences of steps, a name or the number of an element.  All
   addresses of v with at most n steps. *)
RECURSIVE Addresses(_, _)
Addresses(v, n) ==
    {<<>>} \cup
    (IF n = 0 THEN {}
     ELSE CASE v.t = "obj" -> UNION {{<<v.kv[k].k>> \o a : a \in Addresses(v.kv[k].v, n - 1)} : k \in 1..Len(v.kv)}
            [] v.t = "arr" -> UNION {{<<j>> \o a : a \in Addresses(v.e[j], n - 1)} : j \in 1..Len(v.e)}
            [] OTHER -> {})
RECURSIVE ValueAt(_, _)
ValueAt(v, a) ==
    IF a = <<>> THEN v
    ELSE IF v.t = "arr" THEN ValueAt(v.e[a[1]], Tail(a))
    ELSE ValueAt(v.kv[KeyIdx(v, a[1])].v, Tail(a))
IsName(step) == step \in {A, B}
(* the address leads along the path: its names are those of the path, it ends
   with a name, and no two numbers follow each other *)
Leads(v, a, p) ==
    LET named == {i \in 1..Len(a) : \E m \in {"obj"} : ValueAt(v, SubSeq(a, 1, i - 1)).t = m}
    IN /\ Len(a) > 0 /\ Len(a) \in named
       /\ \A i \in 1..(Len(a) - 1) : i \in named \/ (i + 1) \in named
       /\ Cardinality(named) = Len(p)
       /\ \A i \in named : a[i] = p[Cardinality({j \in named : j <= i})]

(* a scalar at the address, or directly in the array there *)
Under(v) == IF v.t = "arr" THEN {v.e[j] : j \in {i \in 1..Len(v.e) : IsScalar(v.e[i])}}
            ELSE IF v.t = "obj" THEN {} ELSE {v}

Declared ==
    LET all == TLCEval(Addresses(doc, MaxDepth + 2)) IN
    \A p \in Paths :
        LET ends == {a \in all : Leads(doc, a, p)}
            got == Reach(doc, p, 1)
        IN /\ Len(got) = Cardinality(ends)
           /\ {got[i] : i \in 1..Len(got)} = {ValueAt(doc, a) : a \in ends}
           /\ {Scalars(got, 1)[i] : i \in 1..Len(Scalars(got, 1))} = UNION {Under(ValueAt(doc, a)) : a \in ends}

(* something that is null exists *)
NullExists ==
    \A p \in Paths :
        CmpEval(Cmp("null", p, <<>>, 1, 1), doc) = T => CmpEval(Cmp("exists", p, <<>>, 1, 1), doc) = T

RECURSIVE Dotted(_, _)
Dotted(p, i) == IF i > Len(p) THEN <<>> ELSE (IF i > 1 THEN <<DOT>> ELSE <<>>) \o p[i] \o Dotted(p, i + 1)
RECURSIVE PathSeq(_)
PathSeq(ps) == IF ps = {} THEN <<>> ELSE LET p == CHOOSE p \in ps : TRUE IN <<Dotted(p, 1)>> \o PathSeq(ps \ {p})
AllPaths == TLCEval(PathSeq(Paths))

Wanted == IF "PREDS" \in DOMAIN IOEnv /\ IOEnv.PREDS = "value" THEN <<X(":1")>> ELSE <<X(":exists"), X(":null")>>
Cases ==
    doc.t \in {"obj", "arr"} =>
    \A w \in 1..Len(Wanted) :
        Emit([k |-> "table", qs |-> [i \in 1..Len(AllPaths) |-> AllPaths[i] \o Wanted[w]], ds |-> <<doc>>])
=============================================================================
