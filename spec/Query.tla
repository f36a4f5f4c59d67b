------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* What a query means on a document.                                       *)
(*                                                                         *)
(* Documents: [t |-> "obj", kv: sequence of [k, v]], [t |-> "arr", e],     *)
(*   [t |-> "str", s], [t |-> "num", s: its text], [t |-> "bool", b],      *)
(*   [t |-> "null"].  Keys and strings are texts.                          *)
(***************************************************************************)
EXTENDS Validate

(* --------------------------------- paths -------------------------------- *)
KeyIdx(o, k) == FirstIdx(Len(o.kv), LAMBDA i : o.kv[i].k = k)

RECURSIVE Reach(_, _, _)
(* the values reached from v by the names p[i], p[i+1], ... *)
Reach(v, p, i) ==
    CASE v.t = "obj" ->
           LET k == KeyIdx(v, p[i]) IN
           IF k = 0 THEN <<>>
           ELSE IF i = Len(p) THEN <<v.kv[k].v>>
           ELSE Reach(v.kv[k].v, p, i + 1)
      [] v.t = "arr" ->
           LET RECURSIVE Over(_)
               Over(j) == IF j > Len(v.e) THEN <<>>
                          ELSE (IF v.e[j].t = "obj" THEN Reach(v.e[j], p, i) ELSE <<>>) \o Over(j + 1)
           IN Over(1)
      [] OTHER -> <<>>

IsScalar(v) == v.t \notin {"obj", "arr"}
RECURSIVE Scalars(_, _)
Scalars(vs, i) ==
    IF i > Len(vs) THEN <<>>
    ELSE (CASE vs[i].t = "obj" -> <<>>
            [] vs[i].t = "arr" -> SelectSeq(vs[i].e, IsScalar)
            [] OTHER -> <<vs[i]>>) \o Scalars(vs, i + 1)

(* ------------------------------ comparisons ----------------------------- *)
(* the text of a scalar for searching: [k: "yes"/"no"/"und", s] *)
Stringy(v) ==
    CASE v.t = "str" -> [k |-> "yes", s |-> v.s]
      [] v.t = "num" ->
           LET r == ReadNum(v.s) IN
           IF ~r.ok \/ ~Exact(r.v) \/ NegZero(v.s, r.v) THEN [k |-> "und", s |-> <<>>]
           ELSE [k |-> "yes", s |-> PlainText(r.v)]
      [] OTHER -> [k |-> "no", s |-> <<>>]

(* the number a scalar is or spells *)
Numeric(v) ==
    IF v.t \notin {"str", "num"} THEN [k |-> "no", v |-> Zero]
    ELSE LET r == ReadNum(v.s) IN
         IF r.ok THEN [k |-> "yes", v |-> r.v]
         ELSE IF Odd(v.s) THEN [k |-> "und", v |-> Zero]
         ELSE [k |-> "no", v |-> Zero]

NumSat(op, x, v) ==
    LET n == Numeric(v) IN
    CASE n.k = "no" -> F
      [] n.k = "und" -> U
      [] OTHER ->
           LET s == Compared(LAMBDA c : Rel(op, c), n.v, x) IN
           IF s = "und" THEN U ELSE Ans(s = "yes")

TimeSat(op, x, v) ==
    IF v.t = "num" THEN U
    ELSE IF v.t # "str" THEN F
    ELSE LET d == DocTime(v.s) IN
         IF d.k = "no" THEN F ELSE IF d.k = "und" THEN U ELSE Ans(Rel(op, CmpTime(d.t, x)))

(* the scalar v equals the value x of a query *)
EqSat(x, v) ==
    CASE x.ty \in {"integer", "float"} -> NumSat("==", x.v, v)
      [] x.ty = "boolean" -> Ans(v.t = "bool" /\ v.b = x.v)
      [] x.ty = "timestamp" ->
           IF ~x.day THEN TimeSat("==", x.v, v)
           ELSE AndA(TimeSat(">=", x.v, v), TimeSat("<", [d |-> x.v.d + 1, s |-> 0, ns |-> 0], v))
      [] x.ty = "netaddr" -> IF v.t = "str" THEN NetIn(v.s, x.v) ELSE F
      [] x.ty = "string" ->
           LET t == Stringy(v) IN
           IF t.k = "no" THEN F ELSE IF t.k = "und" THEN U ELSE Search(x.v, t.s)
      [] x.ty = "regex" ->
           LET t == Stringy(v) IN
           IF t.k = "no" THEN F
           ELSE IF t.k = "und" \/ ((Folds(x.v.fl) \/ EverFolds(x.v.x)) /\ SomeOf(x.src, FoldsToAscii)) THEN U
           ELSE ReMatch(x.v, t.s)

OrderSat(op, x, v) == IF x.ty = "timestamp" THEN TimeSat(op, x.v, v) ELSE NumSat(op, x.v, v)

Sat(c, v) ==
    CASE c.op \in {"==", "~"} -> SomeA(c.vs, LAMBDA x : EqSat(x, v))
      [] c.op = "><" -> AndA(OrderSat(">=", c.vs[1], v), OrderSat("<=", c.vs[2], v))
      [] OTHER -> OrderSat(c.op, c.vs[1], v)

CmpEval(c, doc) ==
    LET vals == Reach(doc, c.f, 1) IN
    CASE c.op = "exists" -> Ans(vals # <<>>)
      [] c.op = "null" -> Ans(vals # <<>> /\ \A i \in 1..Len(vals) : vals[i].t = "null")
      [] OTHER -> SomeA(Scalars(vals, 1), LAMBDA v : Sat(c, v))

RECURSIVE Eval(_, _)
Eval(n, doc) ==
    CASE n.t = "cmp" -> CmpEval(n, doc)
      [] n.t = "not" -> NotA(Eval(n.x, doc))
      [] n.t = "and" -> AndA(Eval(n.l, doc), Eval(n.r, doc))
      [] n.t = "or" -> OrA(Eval(n.l, doc), Eval(n.r, doc))
=============================================================================
