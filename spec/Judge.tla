------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Verdicts on recorded events: [k: "ok" / "und" / "bad", want].           *)
(* An event says what the implementation was given and what it did; the    *)
(* verdict says whether the specification allows that.                     *)
(***************************************************************************)
EXTENDS Graphs, Advice, Shared, Sampling, Highlight, Handed, Printed, Bridge, Told, Pages

Fine == [k |-> "ok", want |-> ""]
Open == [k |-> "und", want |-> ""]
Wrong(w) == [k |-> "bad", want |-> w]
Verdict(b, w) == IF b THEN Fine ELSE Wrong(w)

(* ------------------------------- matching ------------------------------- *)
(* one answer of a matcher: q, d, r *)
JudgeMatch(e) ==
    LET r == Submit(e.q) IN
    IF r.k # "ok" THEN Open
    ELSE LET a == Eval(r.n, e.d) IN
         IF e.r \notin {T, F} THEN Wrong(a)
         ELSE IF a = U THEN Open
         ELSE Verdict(e.r = a, a)

(* answers of many queries on many documents: qs, ds, rs[i][j] *)
JudgeTable(e) ==
    LET ns == TLCEval([i \in 1..Len(e.qs) |-> Submit(e.qs[i])])
        want == TLCEval([i \in 1..Len(e.qs) |->
                   [j \in 1..Len(e.ds) |-> IF ns[i].k = "ok" THEN Eval(ns[i].n, e.ds[j]) ELSE U]])
        off == {<<i, j>> \in (1..Len(e.qs)) \X (1..Len(e.ds)) :
                  /\ ns[i].k = "ok"
                  /\ \/ e.rs[i][j] \notin {T, F}
                     \/ want[i][j] # U /\ e.rs[i][j] # want[i][j]}
    IN IF off # {} THEN Wrong(CHOOSE x \in off : TRUE)
       ELSE IF \A i \in 1..Len(e.qs) : \A j \in 1..Len(e.ds) : want[i][j] = U THEN Open
       ELSE Fine

RECURSIVE NLeaves(_)
NLeaves(n) == CASE n.t = "cmp" -> 1 [] n.t = "not" -> NLeaves(n.x) [] OTHER -> NLeaves(n.l) + NLeaves(n.r)

(* the value of n if its comparisons, from the i-th on, have the values ps *)
RECURSIVE Formula(_, _, _)
Formula(n, ps, i) ==
    CASE n.t = "cmp" -> ps[i]
      [] n.t = "not" -> NotA(Formula(n.x, ps, i))
      [] n.t = "and" -> AndA(Formula(n.l, ps, i), Formula(n.r, ps, i + NLeaves(n.l)))
      [] n.t = "or" -> OrA(Formula(n.l, ps, i), Formula(n.r, ps, i + NLeaves(n.l)))

(* an answer and those of its comparisons alone: q, ps, r *)
JudgeBool(e) ==
    LET r == Submit(e.q) IN
    IF r.k # "ok" \/ SomeOf(e.ps, LAMBDA a : a \notin {T, F}) THEN Open
    ELSE IF NLeaves(r.n) # Len(e.ps) THEN Open
    ELSE LET a == Formula(r.n, e.ps, 1) IN Verdict(e.r = a, a)

(* an equality set, its members alone, and the set with the other of : and :~
   ("-" if that is not allowed): q, d, ps, r, twin *)
JudgeSet(e) ==
    LET r == Submit(e.q) IN
    IF r.k # "ok" \/ r.n.t # "cmp" \/ Len(r.n.vs) # Len(e.ps) THEN Open
    ELSE IF SomeOf(e.ps, LAMBDA a : a \notin {T, F}) THEN Open
    ELSE LET a == Ans(\E i \in 1..Len(e.ps) : e.ps[i] = T)
             strict == \A i \in 1..Len(e.ps) :
                 r.n.vs[i].ty = "boolean" =>
                     e.ps[i] = CmpEval([r.n EXCEPT !.op = "==", !.vs = <<r.n.vs[i]>>], e.d)
         IN IF ~strict THEN Wrong("boolean")
            ELSE IF e.twin # "-" /\ e.twin # e.r THEN Wrong("~")
            ELSE Verdict(e.r = a, a)

(* -------------------------------- parsing ------------------------------- *)
SameValue(s, v, w) ==
    /\ w.ty = v.ty
    /\ CASE v.ty = "integer" -> w.v = PlainText(v.v)
         [] v.ty = "float" -> ~Exact(v.v) \/ NegZero(SubSeq(s, v.b, v.e - 1), v.v) \/ w.v = PlainText(v.v)
         [] v.ty = "string" -> w.v = v.v
         [] v.ty = "regex" -> w.v = v.src
         [] v.ty = "boolean" -> w.v = v.v
         [] v.ty = "timestamp" -> w.v.d = v.v.d /\ w.v.s = v.v.s /\ w.v.ns = v.v.ns /\ w.v.day = v.day
         [] v.ty = "netaddr" -> w.v.o = v.v.o /\ w.v.bits = v.v.bits

(* the tree x that was built is the tree n that was written *)
RECURSIVE SameTree(_, _, _)
SameTree(s, n, x) ==
    /\ n.t = x.t
    /\ CASE n.t = "cmp" -> /\ n.op = x.op /\ n.f = x.f /\ Len(n.vs) = Len(x.vs)
                           /\ \A i \in 1..Len(n.vs) : SameValue(s, n.vs[i], x.vs[i])
         [] n.t = "not" -> SameTree(s, n.x, x.x)
         [] OTHER -> SameTree(s, n.l, x.l) /\ SameTree(s, n.r, x.r)

RECURSIVE SameShape(_, _)
SameShape(n, x) ==
    /\ n.t = x.t
    /\ CASE n.t = "cmp" -> Len(n.vs) = Len(x.vs)
         [] n.t = "not" -> SameShape(n.x, x.x)
         [] OTHER -> SameShape(n.l, x.l) /\ SameShape(n.r, x.r)

RECURSIVE RightPlaces(_, _, _)
RightPlaces(pl, n, x) ==
    CASE n.t = "cmp" -> /\ x.p = PosOf(pl, n.b, n.e)
                        /\ \A i \in 1..Len(n.vs) : x.vs[i].p = PosOf(pl, n.vs[i].b, n.vs[i].e)
      [] n.t = "not" -> RightPlaces(pl, n.x, x.x)
      [] OTHER -> RightPlaces(pl, n.l, x.l) /\ RightPlaces(pl, n.r, x.r)

(* An error position is one of the query's characters or its end.  A line break
   may also be given as column 0 of the line it opens. *)
InsideQuery(s, pl, p) ==
    \E i \in 1..Len(pl) :
       /\ pl[i].o = p[3]
       /\ \/ p[1] = pl[i].l /\ p[2] = pl[i].c
          \/ At(s, i) = LF /\ p[1] = pl[i].l + 1 /\ p[2] = 0

(* The string or regex at i has no end: the error may be where the end was missed. *)
Unclosed(s, i) ==
    \/ At(s, i) = QUOTE /\ QuoteEnd(s, i + 1) = 0
    \/ At(s, i) = SLASH /\ RegexEnd(s, i + 1) = 0

(* q, utf (valid UTF-8), r ("ok", "err", "P" panic, "odd" other error), n, p *)
JudgeLanguage(e) ==
    LET r == ParseText(e.q) IN
    IF e.r \notin {"ok", "err"} THEN Wrong("an answer")
    ELSE IF ~e.utf THEN Verdict(e.r = "err", "err")
    ELSE IF r.k = "und" THEN Open
    ELSE IF r.k # "ok" THEN Verdict(e.r = "err", "err")
    ELSE IF e.r = "ok" THEN Verdict(SameTree(e.q, r.n, e.n), r.n)
    ELSE IF CheckTree(e.q, r.n).k = "ok" THEN Wrong("ok") ELSE Open

JudgeArguments(e) ==
    LET r == ParseText(e.q) IN
    IF ~e.utf \/ r.k # "ok" THEN Open
    ELSE LET c == CheckTree(e.q, r.n) IN
         IF c.k = "und" THEN Open
         ELSE IF c.k = "ok" THEN Verdict(e.r = "ok", "ok")
         ELSE LET p == PosOf(PlacesOf(e.q), c.b, c.e) IN Verdict(e.r = "err" /\ e.p = p, p)

JudgePlaces(e) ==
    LET r == ParseText(e.q)
        pl == TLCEval(PlacesOf(e.q))
    IN IF ~e.utf \/ e.r \notin {"ok", "err"} THEN Open
       ELSE IF e.r = "ok"
       THEN IF r.k # "ok" THEN Open
            ELSE IF ~SameShape(r.n, e.n) THEN Open
            ELSE Verdict(RightPlaces(pl, r.n, e.n), r.n)
       ELSE IF ~InsideQuery(e.q, pl, e.p) THEN Wrong("inside")
       ELSE IF r.k = "val"
       THEN IF r.of = "field" THEN Fine
            ELSE IF Unclosed(e.q, r.at) THEN Verdict(e.p[3] >= pl[r.at].o, pl[r.at].o)
            ELSE Verdict(e.p[3] = pl[r.at].o, pl[r.at].o)
       ELSE IF r.k # "ok" THEN Fine
       ELSE LET c == CheckTree(e.q, r.n) IN
            IF c.k = "arg" THEN Verdict(e.p[3] = pl[c.b].o, pl[c.b].o) ELSE Fine

(* ------------------------------- visitors ------------------------------- *)
NoPlace(p) == p[3] < 0
SamePlace(p, q) == p = q \/ (NoPlace(p) /\ NoPlace(q))
SameMessage(m, x) == m.ty = x.ty /\ x.text = Format(m.t, 1, m.args, 1) /\ SamePlace(m.pos, x.pos)
SameMessages(ms, xs) == Len(ms) = Len(xs) /\ \A i \in 1..Len(ms) : SameMessage(ms[i], xs[i])

(* q, vs (the visitors), seen, msgs (per visitor), r ("ok", "perr" an error of
   a visitor unchanged, "err" one wrapped, "pe" another parse error, "odd"),
   who, at (whose error), txt, p *)
JudgeWalk(e) ==
    LET s == Submit(e.q) IN
    IF s.k = "und" THEN Open
    ELSE IF s.k # "ok" THEN Verdict(e.r = "pe" /\ AllOf(e.seen, LAMBDA x : x = <<>>), "rejected")
    ELSE LET w == Visited(e.vs, s.n) IN
         Verdict(/\ e.seen = w.seen
                 /\ e.r = (IF w.r = "tape" THEN "pe" ELSE w.r)
                 /\ (w.r \in {"perr", "err"} => e.who = w.who /\ e.at = w.at),
                 [seen |-> w.seen, r |-> w.r, who |-> w.who, at |-> w.at])

JudgeMessages(e) ==
    LET s == Submit(e.q) IN
    IF s.k # "ok" THEN Open
    ELSE LET w == Visited(e.vs, s.n) IN
         IF e.seen # w.seen THEN Open
         ELSE IF ~(\A k \in 1..Len(e.vs) : SameMessages(w.ms[k], e.msgs[k])) THEN Wrong("messages")
         ELSE IF w.r = "tape"
         THEN LET m == w.ms[w.who][w.at] IN
              Verdict(e.r = "pe" /\ e.txt = Format(m.t, 1, m.args, 1) /\ SamePlace(m.pos, e.p), m)
         ELSE IF w.r = "ok" THEN Verdict(e.r = "ok", "ok")
         ELSE Fine

(* q, plain (outcome of parsing alone), r ("ok"/"err"), ms: sequence of [ty, p] *)
JudgeAdvice(e) ==
    LET s == Submit(e.q) IN
    IF e.plain # e.r THEN Wrong(e.plain)
    ELSE IF s.k # "ok" \/ e.r # "ok" THEN Open
    ELSE LET a == AdviceFor(s.n)
             pl == TLCEval(PlacesOf(e.q))
         IN IF a.k # "ok" THEN Open
            ELSE LET want == [i \in 1..Len(a.ms) |-> [ty |-> a.ms[i].ty, p |-> PosOf(pl, a.ms[i].b, a.ms[i].e)]]
                     many(ms, m) == Cardinality({i \in 1..Len(ms) : ms[i].ty = m.ty /\ ms[i].p = m.p})
                 IN Verdict(/\ Len(want) = Len(e.ms)
                            /\ \A i \in 1..Len(want) : /\ want[i].p = e.ms[i].p
                                                       /\ many(want, want[i]) = many(e.ms, want[i]),
                            want)

(* ------------------------------- histories ------------------------------ *)
(* q, steps *)
JudgeStats(e) ==
    LET s == Submit(e.q) IN
    IF s.k # "ok" THEN Open
    ELSE LET z == ZeroStats(s.n)
             w == IF SameStats(z, e.st0) THEN FirstWrong(s.n, e.steps, 1, z) ELSE 1
         IN IF w = -1 THEN Open ELSE Verdict(w = 0, w)

JudgeShared(e) ==
    LET f == HistoryFlaw(e) IN
    IF f = "und" THEN Open ELSE Verdict(f = "", f)

(* vs: versions [b: bytes, rs: the answers on all calls] of one document, clean:
   the caller's bytes were left alone *)
JudgeTotal(e) ==
    LET ok == TLCEval([i \in 1..Len(e.vs) |-> ValidJson(e.vs[i].b)])
        sq == TLCEval([i \in 1..Len(e.vs) |-> IF ok[i] THEN Squeeze(e.vs[i].b, 1, <<>>) ELSE <<>>])
        a(i) == e.vs[i].rs[1]
    IN IF ~e.clean THEN Wrong("bytes")
       ELSE Verdict(
         /\ \A i \in 1..Len(e.vs) :
               /\ \A j \in 1..Len(e.vs[i].rs) : e.vs[i].rs[j] = a(i)
               /\ IF ok[i] THEN a(i) \in {T, F} ELSE a(i) = "X"
         /\ \A i \in 1..Len(e.vs) : ok[1] /\ ok[i] /\ sq[i] = sq[1] => a(i) = a(1),
         ok)

(* --------------------------------- shows -------------------------------- *)
(* q, o (byte offset, -1: none), n, w, v: what was shown *)
JudgeShown(e) ==
    LET o == IF e.o < 0 THEN -1 ELSE CharIdx(e.q, e.o, 0, 0) IN
    IF e.o >= 0 /\ o < 0 THEN Open
    ELSE Verdict(ShownWell(e.v, e.q, o, e.n, e.w), o)

(* the terminal form: the marker under the excerpt: lead (blanks before the
   excerpt), gap (blanks before the marker), carets; -1: there is none *)
JudgeTerminal(e) ==
    LET o == IF e.o < 0 THEN -1 ELSE CharIdx(e.q, e.o, 0, 0) IN
    IF SomeOf(e.q, LAMBDA c : c \in {LF, CR}) \/ (e.o >= 0 /\ o < 0) THEN Open
    ELSE IF o < 0 THEN Verdict(e.carets = 0, "no marker")
    ELSE Verdict(\E win \in Windows(e.q, o, e.n, e.w) :
                   /\ e.text = Show(e.q, win[1], win[2])
                   /\ e.gap - e.lead = o - win[1] + (IF win[1] > 0 THEN 3 ELSE 0)
                   /\ e.carets = MaxN(MinN(o + e.n, win[2]) - o, 1), o)

(* ------------------------------ the sampler ----------------------------- *)
JudgeSampler(e) ==
    LET w == FirstOdd(e.steps, 1, Fresh, e.max) IN
    IF w = -1 THEN Open ELSE Verdict(w = 0, w)

(* d, max, keys (as listed), rs: does key:exists hold in d *)
JudgeFields(e) ==
    LET st == Sampled(Fresh, e.d, e.max)
        read == TLCEval([i \in 1..Len(e.keys) |-> ReadPath(e.keys[i])])
    IN Verdict(/\ AllOf(e.rs, LAMBDA r : r = T)
               /\ Known(st) \subseteq {read[i].p : i \in {k \in 1..Len(read) : read[k].ok}},
               Cardinality(Known(st)))

(* --------------------------------- tools -------------------------------- *)
JudgeGraph(e) ==
    LET s == Submit(e.q) IN
    IF s.k = "und" THEN Open
    ELSE IF s.k # "ok" THEN Verdict(e.r = "err", "err")
    ELSE Verdict(e.r = "ok" /\ DrawingIn(e.form, e.g, e.q, s.n) /\ Captioned(e.form, e.g, e.q), "ok")

(* the drawing tool: ask (svg, dot, other: no known format, default: no file
   named, usage: no query either), place (fresh, old: there is a file, dir: a
   directory of that name, lost: no directory to put it in), exit, told,
   target (absent, old, new), others (other files were touched), r and g: what
   is in the new file *)
JudgeDraw(e) ==
    LET s == Submit(e.q)
        form == IF e.ask = "dot" THEN "dot" ELSE "svg"
        refused == /\ e.exit # 0 /\ e.told /\ ~e.others
                   /\ e.target = (IF e.place = "old" THEN "old" ELSE "absent")
    IN IF e.ask \in {"other", "usage"} \/ e.place \in {"dir", "lost"} THEN Verdict(refused, "refused")
       ELSE IF s.k = "und" THEN Open
       ELSE IF s.k # "ok" THEN Verdict(refused, "refused")
       ELSE Verdict(/\ e.exit = 0 /\ ~e.others /\ e.target = "new" /\ e.r = "ok"
                    /\ DrawingIn(form, e.g, e.q, s.n) /\ Captioned(form, e.g, e.q), "drawn")

(* the command-line tool: file ("read" or "none": cannot be read), lib (what
   the library says: ok, off, r, st, kinds), exit, res ("T"/"F"/"-"), st, extra
   (other output), kinds (of the messages shown), told (their texts are there),
   gap and carets (of the last marker; gap -1: not to be compared) *)
JudgeCli(e) ==
    LET l == e.lib
        failed == e.exit # 0 /\ e.res = "-" /\ ~e.extra
    IN IF l.r = "P" THEN Open
       ELSE IF ~l.ok
       THEN Verdict(/\ failed /\ e.told
                    /\ (l.off >= 0 => e.carets >= 1 /\ e.gap \in {-1, l.off}), "rejected")
       ELSE IF e.file = "none" \/ l.r = "X" THEN Verdict(failed, "failure")
       ELSE Verdict(/\ e.exit = 0 /\ e.res = l.r /\ ~e.extra
                    /\ e.st = l.st
                    /\ e.told /\ e.kinds = l.kinds, "the answer of the library")

(* ps: sequence of [q, r, txt, names] *)
JudgePrinted(e) ==
    LET full == TLCEval([i \in 1..Len(e.ps) |-> [q |-> e.ps[i].q, s |-> Submit(e.ps[i].q), p |-> e.ps[i]]])
        fit == SelectSeq(full, LAMBDA x : x.s.k = "ok" /\ x.p.r = "ok" /\ NLeaves(x.s.n) = Len(x.p.names))
        f == PrintedFlaw([i \in 1..Len(fit) |-> [q |-> fit[i].q, n |-> fit[i].s.n, txt |-> fit[i].p.txt, names |-> fit[i].p.names]])
    IN IF fit = <<>> THEN Open ELSE Verdict(f = "", f)

JudgeEvent(e) ==
    CASE e.k = "match" -> JudgeMatch(e)
      [] e.k = "table" -> JudgeTable(e)
      [] e.k = "bool" -> JudgeBool(e)
      [] e.k = "set" -> JudgeSet(e)
      [] e.k = "C10" -> JudgeLanguage(e)
      [] e.k = "C11" -> JudgeArguments(e)
      [] e.k = "C12" -> JudgePlaces(e)
      [] e.k = "C13" -> JudgeWalk(e)
      [] e.k = "C14" -> JudgeMessages(e)
      [] e.k = "advice" -> JudgeAdvice(e)
      [] e.k = "stats" -> JudgeStats(e)
      [] e.k = "shared" -> JudgeShared(e)
      [] e.k = "total" -> JudgeTotal(e)
      [] e.k = "submit" -> Verdict(e.r \in {"ok", "err"}, "matcher or parse error")
      [] e.k = "shown" -> JudgeShown(e)
      [] e.k = "terminal" -> JudgeTerminal(e)
      [] e.k = "sampler" -> JudgeSampler(e)
      [] e.k = "fields" -> JudgeFields(e)
      [] e.k = "graph" -> JudgeGraph(e)
      [] e.k = "draw" -> JudgeDraw(e)
      [] e.k = "bridge" -> (LET f == BridgeFlaw(e) IN IF f = "und" THEN Open ELSE Verdict(f = "", f))
      [] e.k = "cli" -> JudgeCli(e)
      [] e.k = "printed" -> JudgePrinted(e)
      [] e.k = "told" -> (LET f == ToldFlaw(e) IN Verdict(f = "", f))
      [] e.k = "pages" -> (LET f == PagesFlaw(e) IN Verdict(f = "", f))
      [] e.k = "handed" -> (LET f == HandedFlaw(e) IN Verdict(f = "", f))
=============================================================================
