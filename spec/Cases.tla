------------------------------- MODULE Cases -------------------------------
(***************************************************************************)
(* What the models have in common: texts written as strings, documents,    *)
(* formulas, and the cases handed to the implementation.                   *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

LOCAL Printables ==
    " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

LOCAL CodeOf == [i \in 1..Len(Printables) |-> SubSeq(Printables, i, i)]
LOCAL Code(c) == 31 + (CHOOSE i \in 1..Len(Printables) : CodeOf[i] = c)

(* the code points of a string of printable ASCII characters *)
X(str) == TLCEval([i \in 1..Len(str) |-> Code(SubSeq(str, i, i))])

(* hand a case to the implementation *)
Emit(c) == PrintT("CASE " \o ToJson(c))

(* a bound of the model, from the environment *)
Bound(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default

(* the elements of a finite set, in some order *)
RECURSIVE Listed(_)
Listed(ss) == IF ss = {} THEN <<>> ELSE LET s == CHOOSE s \in ss : TRUE IN <<s>> \o Listed(ss \ {s})

(* ------------------------------- documents ------------------------------ *)
Nul == [t |-> "null"]
Num(s) == [t |-> "num", s |-> s]
Str(s) == [t |-> "str", s |-> s]
Boo(b) == [t |-> "bool", b |-> b]
Arr(e) == [t |-> "arr", e |-> e]
Obj(kv) == [t |-> "obj", kv |-> kv]
Mem(k, v) == [k |-> k, v |-> v]

(* ------------------------------- formulas ------------------------------- *)
(* the same trees as the parser builds, without positions; leaves carry their text *)
Leaf(txt) == [t |-> "leaf", txt |-> txt]
Not(x) == [t |-> "not", x |-> x]
And(l, r) == [t |-> "and", l |-> l, r |-> r]
Or(l, r) == [t |-> "or", l |-> l, r |-> r]

RECURSIVE FLeaves(_)
FLeaves(f) ==
    CASE f.t = "leaf" -> <<f.txt>>
      [] f.t = "not" -> FLeaves(f.x)
      [] OTHER -> FLeaves(f.l) \o FLeaves(f.r)
RECURSIVE FNots(_)
FNots(f) ==
    CASE f.t = "leaf" -> 0
      [] f.t = "not" -> 1 + FNots(f.x)
      [] OTHER -> FNots(f.l) + FNots(f.r)

LOCAL Level(f) == CASE f.t = "or" -> 0 [] f.t = "and" -> 1 [] f.t = "not" -> 2 [] OTHER -> 3
LOCAL Group(s) == <<LPAR>> \o s \o <<RPAR>>

(* with as few parentheses as possible *)
RECURSIVE Written(_, _)
Written(f, level) ==
    LET s == CASE f.t = "leaf" -> f.txt
               [] f.t = "not" -> <<BANG>> \o Written(f.x, 3)
               [] f.t = "and" -> Written(f.l, 2) \o <<SP>> \o K_AND \o <<SP>> \o Written(f.r, 1)
               [] f.t = "or" -> Written(f.l, 1) \o <<SP>> \o K_OR \o <<SP>> \o Written(f.r, 0)
    IN IF Level(f) < level THEN Group(s) ELSE s

(* with as many as possible *)
RECURSIVE Grouped(_)
Grouped(f) ==
    CASE f.t = "leaf" -> Group(f.txt)
      [] f.t = "not" -> Group(K_NOT \o <<SP>> \o Grouped(f.x))
      [] f.t = "and" -> Group(Grouped(f.l) \o <<SP>> \o K_AND \o <<SP>> \o Grouped(f.r))
      [] f.t = "or" -> Group(Grouped(f.l) \o <<SP>> \o K_OR \o <<SP>> \o Grouped(f.r))

(* the parser's tree n is the formula f, read off the text s *)
RECURSIVE IsTree(_, _, _)
IsTree(f, n, s) ==
    CASE f.t = "leaf" -> n.t = "cmp" /\ SubSeq(s, n.b, n.e - 1) = f.txt
      [] f.t = "not" -> n.t = "not" /\ IsTree(f.x, n.x, s)
      [] OTHER -> n.t = f.t /\ IsTree(f.l, n.l, s) /\ IsTree(f.r, n.r, s)

(* every way to make a larger formula out of f, with the leaves ls *)
Grow(f, ls) ==
    {Not(f)}
    \cup {And(f, Leaf(l)) : l \in ls} \cup {Or(f, Leaf(l)) : l \in ls}
    \cup {And(Leaf(l), f) : l \in ls} \cup {Or(Leaf(l), f) : l \in ls}
    \cup {And(Not(Leaf(l)), f) : l \in ls} \cup {Or(f, Not(Leaf(l))) : l \in ls}
    \cup {Or(And(Leaf(l), Leaf(m)), f) : l \in ls, m \in ls}
    \cup {And(f, Or(Leaf(l), Leaf(m))) : l \in ls, m \in ls}
    \cup {And(f, And(Leaf(l), Leaf(m))) : l \in ls, m \in ls}
=============================================================================
