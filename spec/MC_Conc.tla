------------------------------ MODULE MC_Conc ------------------------------
(***************************************************************************)
(* Callers of one matcher, each evaluation counting clause by clause and   *)
(* each reading of the counts taking them one by one, interleaved in every *)
(* possible way.                                                           *)
(***************************************************************************)
EXTENDS Cases

CONSTANT Careless              \* read how often a clause was evaluated before how often it was true

VARIABLES q, plan, pos, cnt, calls, clock, sched

Worlds == {{}, {1}, {1, 2}}
DocOf(w) == Obj(<<Mem(X("a"), Boo(1 \in w)), Mem(X("b"), Boo(2 \in w))>>)
Queries == IF Bound("SIZE", 1) = 0 THEN {X("a:true")}
           ELSE IF Bound("SIZE", 1) = 1 THEN {X("a:true"), X("!a:true")}
           ELSE IF Bound("SIZE", 1) = 2 THEN {X("!a:true"), X("a:true OR b:true")}
           ELSE {X("a:true AND b:true"), X("a:true OR !b:true")}

Match(w) == [kind |-> "match", w |-> w]
Stat == [kind |-> "stats", w |-> {}]
(* what the callers do *)
Plans == IF Bound("CALLERS", 2) = 2
         THEN {<< <<Match(v)>>, <<Stat>> >> : v \in Worlds}
              \cup {<< <<Match(v)>>, <<Match(w)>> >> : v \in {{1}, {1, 2}}, w \in {{}, {1, 2}}}
         ELSE {<< <<Match({1, 2})>>, <<Stat>>, <<Match({1})>> >>}

N(t) == Submit(t).n
Zero2(t) == ZeroStats(N(t))

(* the counters of a statistics tree, in reading order *)
RECURSIVE Flat(_)
Flat(st) == <<st.c, st.m>> \o ConcatAll([k \in 1..Len(st.ch) |-> Flat(st.ch[k])])
RECURSIVE NNodes(_)
NNodes(st) == 1 + (IF Len(st.ch) = 0 THEN 0 ELSE IF Len(st.ch) = 1 THEN NNodes(st.ch[1]) ELSE NNodes(st.ch[1]) + NNodes(st.ch[2]))
(* the tree with the counters fl, from the i-th node on *)
RECURSIVE Unflat(_, _, _)
Unflat(st, fl, i) ==
    [nm |-> st.nm, c |-> fl[2 * i - 1], m |-> fl[2 * i],
     ch |-> [k \in 1..Len(st.ch) |-> Unflat(st.ch[k], fl, IF k = 1 THEN i + 1 ELSE i + 1 + NNodes(st.ch[1]))]]

(* the counters one evaluation raises, children first, evaluations before matches *)
Raised(t, w) ==
    LET fl == Flat(Count(N(t), DocOf(w), Zero2(t)).st)
        n == Len(fl) \div 2
    IN ConcatAll([k \in 1..n |-> LET i == n + 1 - k IN
          (IF fl[2 * i - 1] > 0 THEN <<2 * i - 1>> ELSE <<>>) \o (IF fl[2 * i] > 0 THEN <<2 * i>> ELSE <<>>)])
(* the counters one reading looks at *)
Looked(t) ==
    LET n == NNodes(Zero2(t)) IN
    ConcatAll([i \in 1..n |-> IF Careless THEN <<2 * i - 1, 2 * i>> ELSE <<2 * i, 2 * i - 1>>])

Script(t, c) == IF c.kind = "match" THEN Raised(t, c.w) ELSE Looked(t)

Init ==
    /\ q \in Queries /\ plan \in Plans
    /\ pos = [p \in 1..Len(plan) |-> <<1, 0>>]       \* which call, how many of its steps are done (0: not begun)
    /\ cnt = Flat(Zero2(q))
    /\ calls = [p \in 1..Len(plan) |-> [k \in 1..Len(plan[p]) |-> [inv |-> 0, ret |-> 0, fl |-> Flat(Zero2(q))]]]
    /\ clock = 0 /\ sched = <<>>

Step(p) ==
    LET k == pos[p][1]
        i == pos[p][2]
        c == plan[p][k]
        sc == Script(q, c)
    IN /\ k <= Len(plan[p])
       /\ sched' = Append(sched, p - 1)
       /\ UNCHANGED <<q, plan>>
       /\ IF i = 0
          THEN /\ clock' = clock + 1
               /\ calls' = [calls EXCEPT ![p][k].inv = clock + 1]
               /\ pos' = [pos EXCEPT ![p] = <<k, 1>>] /\ UNCHANGED cnt
          ELSE IF i > Len(sc)
          THEN /\ clock' = clock + 1
               /\ calls' = [calls EXCEPT ![p][k].ret = clock + 1]
               /\ pos' = [pos EXCEPT ![p] = <<k + 1, 0>>] /\ UNCHANGED cnt
          ELSE /\ pos' = [pos EXCEPT ![p] = <<k, i + 1>>] /\ UNCHANGED clock
               /\ IF c.kind = "match"
                  THEN cnt' = [cnt EXCEPT ![sc[i]] = @ + 1] /\ UNCHANGED calls
                  ELSE calls' = [calls EXCEPT ![p][k].fl[sc[i]] = cnt[sc[i]]] /\ UNCHANGED cnt
Next == \E p \in 1..Len(plan) : Step(p)
(* all but the order of the steps so far *)
Without == <<q, plan, pos, cnt, calls, clock>>
Spec == Init /\ [][Next]_<<q, plan, pos, cnt, calls, clock, sched>>

Done == \A p \in 1..Len(plan) : pos[p][1] > Len(plan[p])

History ==
    LET z == Zero2(q)
        one(c) == IF c.kind = "match" THEN Count(N(q), DocOf(c.w), z) ELSE [a |-> "-", st |-> z]
        call(p, k) == LET c == plan[p][k] IN
            [kind |-> c.kind, r |-> one(c).a, alone |-> one(c).a, one |-> one(c).st,
             st |-> Unflat(z, calls[p][k].fl, 1), inv |-> calls[p][k].inv, ret |-> calls[p][k].ret]
    IN [zero |-> z, final |-> Unflat(z, cnt, 1),
        calls |-> ConcatAll([p \in 1..Len(plan) |-> [k \in 1..Len(plan[p]) |-> call(p, k)]])]

(* counting this way, every history is explained *)
Explained == Done => HistoryFlaw(History) = ""
(* and a lost count is not *)
NoLoss == Done => HistoryFlaw([History EXCEPT !.final.c = @ - 1]) = "final"

Cases ==
    Done => Emit([k |-> "shared", q |-> q, sched |-> sched,
                  callers |-> [p \in 1..Len(plan) |-> [k \in 1..Len(plan[p]) |-> [kind |-> plan[p][k].kind, d |-> DocOf(plan[p][k].w)]]]])
=============================================================================
