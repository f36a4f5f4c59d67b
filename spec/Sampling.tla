------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* The key sampler.  Paths are sequences of key names.  A sampler state is *)
(* [docs, cnt]: the number of documents accepted and, per path, how many   *)
(* scalars were found there.                                               *)
(***************************************************************************)
EXTENDS Query, JsonText

(* all paths to scalars, with repetitions; max < 0: no limit *)
RECURSIVE ScalarPaths(_, _, _)
RECURSIVE InMembers(_, _, _, _)
RECURSIVE InElements(_, _, _, _)
ScalarPaths(v, path, max) ==
    IF max >= 0 /\ Len(path) > max THEN <<>>
    ELSE CASE v.t = "obj" -> InMembers(v.kv, 1, path, max)
           [] v.t = "arr" -> InElements(v.e, 1, path, max)
           [] OTHER -> IF path = <<>> THEN <<>> ELSE <<path>>
InMembers(kv, i, path, max) ==
    IF i > Len(kv) THEN <<>>
    ELSE ScalarPaths(kv[i].v, Append(path, kv[i].k), max) \o InMembers(kv, i + 1, path, max)
InElements(es, i, path, max) ==
    IF i > Len(es) THEN <<>>
    ELSE (IF es[i].t = "arr" THEN <<>> ELSE ScalarPaths(es[i], path, max)) \o InElements(es, i + 1, path, max)

Fresh == [docs |-> 0, cnt |-> <<>>]      \* cnt: function from paths; none yet

(* how often a path was recorded *)
Occ(st, p) == IF p \in DOMAIN st.cnt THEN st.cnt[p] ELSE 0
CountIn(ps, p) == Cardinality({i \in 1..Len(ps) : ps[i] = p})

(* the same document n times in a row *)
SampledTimes(st, doc, max, n) ==
    LET ps == TLCEval(ScalarPaths(doc, <<>>, max))
        new == {ps[i] : i \in 1..Len(ps)}
    IN [docs |-> st.docs + n,
        cnt |-> TLCEval([p \in (DOMAIN st.cnt) \cup new |-> Occ(st, p) + n * CountIn(ps, p)])]
Sampled(st, doc, max) == SampledTimes(st, doc, max, 1)

Known(st) == DOMAIN st.cnt
AtThreshold(st, pct) == {p \in Known(st) : st.cnt[p] * 100 >= pct * st.docs}

(* A listed path as text.  Plain names stand as they are, others are quoted. *)
PlainKey(k) == k # <<>> /\ AllOf(k, NameChar)
RECURSIVE PathText(_, _)
PathText(p, i) ==
    IF i > Len(p) THEN <<>> ELSE (IF i > 1 THEN <<DOT>> ELSE <<>>) \o p[i] \o PathText(p, i + 1)

(* the names a listed path stands for: [ok, p] *)
ReadPath(t) ==
    LET f == Field(t, 1) IN
    IF f.k # "ok" \/ f.e # Len(t) + 1 THEN [ok |-> FALSE, p |-> <<>>]
    ELSE IF AllOf(f.v, PlainKey) THEN [ok |-> t = PathText(f.v, 1), p |-> f.v]
    ELSE [ok |-> TRUE, p |-> f.v]

(* the listed texts are exactly the paths of the set, each once *)
Lists(texts, paths) ==
    LET read == TLCEval([i \in 1..Len(texts) |-> ReadPath(texts[i])]) IN
    /\ \A i \in 1..Len(texts) : read[i].ok
    /\ {read[i].p : i \in 1..Len(texts)} = paths
    /\ Cardinality(paths) = Len(texts)

(* A step of a history and what was seen after it:
   op "sample" (d: a document tree, n times in a row) / "raw" (b: bytes that are not a plain
   well-formed document) / "reset"; ok; scanned; keys; thr: sequence of [pct, keys]. *)
SeenAs(s, st) ==
    /\ s.scanned = st.docs
    /\ Lists(s.keys, Known(st))
    /\ \A i \in 1..Len(s.thr) : Lists(s.thr[i].keys, AtThreshold(st, s.thr[i].pct))

MustReject(b) == b = <<>> \/ b[1] \notin {LBRACE, LBRACK}

(* index of the first wrong step, 0 if none; -1: all fine, but not decided to the end *)
RECURSIVE FirstOdd(_, _, _, _)
FirstOdd(steps, i, st, max) ==
    IF i > Len(steps) THEN 0
    ELSE LET s == steps[i]
             next == CASE s.op = "reset" -> Fresh
                       [] s.op = "sample" -> SampledTimes(st, s.d, max, s.n)
                       [] OTHER -> st
         IN IF s.op = "raw" /\ s.ok THEN (IF MustReject(s.b) THEN i ELSE -1)
            ELSE IF s.op = "sample" /\ ~s.ok THEN i
            ELSE IF SeenAs(s, next) THEN FirstOdd(steps, i + 1, TLCEval(next), max)
            ELSE i
=============================================================================
