------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* The drawing of a query.  A drawing is a sequence of nodes [id, ty,      *)
(* cells] (ty: "start", "AND", "OR", "NOT" or "cmp"; cells: the texts      *)
(* shown) and a sequence of edges <<from, to>>.                            *)
(***************************************************************************)
EXTENDS Walk

TypeName(ty) ==
    CASE ty = "float" -> <<102, 108, 111, 97, 116>>
      [] ty = "integer" -> <<105, 110, 116, 101, 103, 101, 114>>
      [] ty = "string" -> <<115, 116, 114, 105, 110, 103>>
      [] ty = "netaddr" -> <<110, 101, 116, 119, 111, 114, 107>>
      [] ty = "boolean" -> <<98, 111, 111, 108, 101, 97, 110>>
      [] ty = "regex" -> <<114, 101, 103, 101, 120, 112>>
      [] ty = "timestamp" -> <<100, 97, 116, 101, 116, 105, 109, 101>>

OpText(op) ==
    CASE op = "==" -> <<EQUALS, EQUALS>>
      [] op = "<" -> <<LESS>>
      [] op = "<=" -> <<LESS, EQUALS>>
      [] op = ">" -> <<GREATER>>
      [] op = ">=" -> <<GREATER, EQUALS>>
      [] op = "><" -> <<GREATER, LESS>>
      [] op = "~" -> <<TILDE>>
      [] op = "exists" -> K_exists
      [] op = "null" -> K_null

RECURSIVE Escaped(_)
Escaped(v) ==
    IF v = <<>> THEN <<>>
    ELSE (IF Head(v) \in {QUOTE, BSLASH} THEN <<BSLASH, Head(v)>> ELSE <<Head(v)>>) \o Escaped(Tail(v))

Printable(v) == AllOf(v, LAMBDA c : (c >= SP /\ c < 127) \/ IsCJK(c) \/ (c \in 161..383 /\ c # 173))

(* the texts a value may be shown as; the empty set: not decided *)
ValueTexts(s, v) ==
    LET src == SubSeq(s, v.b, v.e - 1) IN
    CASE v.ty = "string" -> IF Printable(v.v) THEN {<<QUOTE>> \o Escaped(v.v) \o <<QUOTE>>} ELSE {}
      [] v.ty = "regex" -> IF Printable(src) THEN {src, <<SLASH>> \o v.src \o <<SLASH>>} ELSE {}
      [] v.ty = "netaddr" -> {src, src \o <<SLASH, 51, 50>>}
      [] v.ty = "float" -> IF Exact(v.v) /\ ~NegZero(src, v.v) THEN {src, PlainText(v.v)} ELSE {}
      [] OTHER -> {src}

RECURSIVE JoinDots(_, _)
JoinDots(f, i) == IF i > Len(f) THEN <<>> ELSE (IF i > 1 THEN <<DOT>> ELSE <<>>) \o f[i] \o JoinDots(f, i + 1)

(* the names of a field, plain or, where they have to be, quoted *)
InQuotes(k) == <<QUOTE>> \o Escaped(k) \o <<QUOTE>>
FieldTexts(f) ==
    {JoinDots(f, 1), JoinDots([i \in 1..Len(f) |-> InQuotes(f[i])], 1),
     JoinDots([i \in 1..Len(f) |-> IF f[i] # <<>> /\ AllOf(f[i], NameChar) THEN f[i] ELSE InQuotes(f[i])], 1)}

(* what a comparison shows, in order: sets of acceptable texts *)
RECURSIVE ShowsValues(_, _, _)
ShowsValues(s, vs, i) ==
    IF i > Len(vs) THEN <<>>
    ELSE <<{TypeName(vs[i].ty)}, ValueTexts(s, vs[i])>> \o ShowsValues(s, vs, i + 1)
Shows(s, c) ==
    <<IF AllOf(c.f, Printable) THEN FieldTexts(c.f) ELSE {}, {OpText(c.op)}>> \o ShowsValues(s, c.vs, 1)

(* the cells contain the wanted texts in this order *)
RECURSIVE InOrder(_, _, _, _)
InOrder(cells, i, want, k) ==
    IF k > Len(want) THEN TRUE
    ELSE IF i > Len(cells) THEN FALSE
    ELSE IF want[k] = {} \/ cells[i] \in want[k] THEN InOrder(cells, i + 1, want, k + 1)
    ELSE InOrder(cells, i + 1, want, k)

(* a picture does not tell blanks apart, and says nothing where there is nothing
   to be seen *)
Squash(v) == SelectSeq(v, LAMBDA c : c \notin {SP, TAB, LF, CR, 160})
Visibly(want) ==
    SelectSeq([k \in 1..Len(want) |-> {Squash(t) : t \in want[k]}], LAMBDA w : w # {} /\ <<>> \notin w)
ShowsIn(form, s, c) == IF form = "svg" THEN Visibly(Shows(s, c)) ELSE Shows(s, c)

Kids(g, id) == SelectSeq(g.edges, LAMBDA e : e[1] = id)
NodeOf(g, id) == g.nodes[CHOOSE k \in 1..Len(g.nodes) : g.nodes[k].id = id]

(* the part of the drawing below node id is a drawing of the clause n *)
RECURSIVE Draws(_, _, _, _, _)
Draws(g, id, s, n, form) ==
    LET nd == NodeOf(g, id)
        ks == Kids(g, id)
    IN CASE n.t = "cmp" -> nd.ty = "cmp" /\ ks = <<>> /\ InOrder(nd.cells, 1, ShowsIn(form, s, n), 1)
         [] n.t = "not" -> nd.ty = "NOT" /\ Len(ks) = 1 /\ Draws(g, ks[1][2], s, n.x, form)
         [] OTHER ->
              /\ nd.ty = (IF n.t = "and" THEN "AND" ELSE "OR")
              /\ Len(ks) = 2
              /\ \/ Draws(g, ks[1][2], s, n.l, form) /\ Draws(g, ks[2][2], s, n.r, form)
                 \/ Draws(g, ks[2][2], s, n.l, form) /\ Draws(g, ks[1][2], s, n.r, form)

DrawingIn(form, g, s, n) ==
    LET starts == {k \in 1..Len(g.nodes) : g.nodes[k].ty = "start"}
        ids == {g.nodes[k].id : k \in 1..Len(g.nodes)}
    IN
    /\ Len(g.nodes) = Size(n) + 1
    /\ Len(g.edges) = Size(n)
    /\ Cardinality(ids) = Len(g.nodes)
    /\ \A k \in 1..Len(g.edges) : g.edges[k][2] \in ids
    /\ Cardinality(starts) = 1
    /\ LET st == g.nodes[CHOOSE k \in starts : TRUE]
           ks == Kids(g, st.id)
       IN Len(ks) = 1 /\ Draws(g, ks[1][2], s, n, form)

Drawing(g, s, n) == DrawingIn("dot", g, s, n)

(* a picture has the query for its caption *)
Captioned(form, g, s) == form = "dot" \/ ~Printable(Squash(s)) \/ g.cap = Squash(s)
=============================================================================
