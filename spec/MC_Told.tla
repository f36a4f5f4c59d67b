------------------------------ MODULE MC_Told ------------------------------
(***************************************************************************)
(* Messages made of awkward characters, of every kind, with and without a  *)
(* position.                                                               *)
(***************************************************************************)
EXTENDS Cases

MaxChars == Bound("CHARS", 2)

VARIABLES msg, ty, src, there, html

Awkward == {97, QUOTE, 39, LESS, GREATER, 38, BSLASH, LF, TAB, 127, 8232, 233, 128512, 59, 37, COLON, LBRACE, 43}
Init == msg = <<>> /\ ty \in {"HINT", "WARNING", "ERROR"} /\ src \in {"message", "error"} /\ (src = "error" => ty = "ERROR")
        /\ there \in 0..2 /\ html \in BOOLEAN
Next == Len(msg) < MaxChars /\ \E c \in Awkward : msg' = Append(msg, c) /\ UNCHANGED <<ty, src, there, html>>
Spec == Init /\ [][Next]_<<msg, ty, src, there, html>>

Q == X("a:1 AND bc:<2")
P == IF there = 0 THEN <<0, 0, -1, 0>> ELSE IF there = 1 THEN <<1, 1, 0, 3>> ELSE <<1, 9, 8, 5>>

(* one way of writing it *)
RECURSIVE JsonOf(_), HtmlOf(_)
JsonOf(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET c == Head(s) IN
         (IF c = QUOTE \/ c = BSLASH THEN <<BSLASH, c>>
          ELSE IF c = LF THEN X("\\n") ELSE IF c = TAB THEN X("\\u0009")
          ELSE IF c = LESS THEN X("\\u003c") ELSE IF c = 128512 THEN X("\\ud83d\\uDE00") ELSE <<c>>) \o JsonOf(Tail(s))
HtmlOf(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET c == Head(s) IN
         (IF c = LESS THEN E_lt ELSE IF c = GREATER THEN X("&#62;") ELSE IF c = 38 THEN E_amp ELSE IF c = 39 THEN X("&#x27;")
          ELSE IF c = QUOTE THEN E_quot ELSE <<c>>) \o HtmlOf(Tail(s))
In(s) == IF html THEN HtmlOf(s) ELSE s
Told0 ==
    [k |-> "told", src |-> src, ty |-> ty, msg |-> msg, p |-> P, html |-> html, q |-> Q,
     text |-> (IF src = "message" THEN KindWord(ty) \o X(" ") ELSE <<>>)
              \o (IF there = 0 THEN <<>> ELSE X("[") \o NatText(P[1]) \o X(":") \o NatText(P[2]) \o X("] ")) \o msg,
     json |-> X("{ \"message\":\"") \o JsonOf(msg) \o X("\" , \"position\": {\"line\":") \o IntText(P[1]) \o X(",\"column\":")
              \o IntText(P[2]) \o X(",\"offset\":") \o IntText(P[3]) \o X(",\"length\":") \o IntText(P[4]) \o X("},\"type\":\"")
              \o KindWord(ty) \o X("\"}"),
     fty |-> In(ShownKind(ty)), fmsg |-> In(msg), fq |-> In(Q),
     term |-> [i \in 1..Len(ShownKind(ty)) |-> Upper(ShownKind(ty)[i])] \o X(": ") \o msg]

Other == IF ty = "HINT" THEN "WARNING" ELSE "HINT"
Says(e) == ToldFlaw(e) = ""
Honest ==
    LET w == Told0 IN
    /\ Says(w)
    /\ (src = "message" => ~Says([w EXCEPT !.ty = Other]))
    /\ (there # 0 => \A i \in {1, 2} : ~Says([w EXCEPT !.p[i] = @ + 1]))
    /\ \A i \in 3..4 : ~Says([w EXCEPT !.p[i] = @ + 1])
    /\ \A c \in {97, LESS, 38, 128512} :
          /\ ~Says([w EXCEPT !.msg = Append(@, c)])
          /\ ~Says([w EXCEPT !.q = Append(@, c)])
    /\ (msg # <<>> => ~Says([w EXCEPT !.msg = Tail(@)]) /\ ~Says([w EXCEPT !.json = X("null")]))
    /\ (html /\ LESS \in {msg[i] : i \in 1..Len(msg)} => ~Says([w EXCEPT !.fmsg = msg]))
    /\ (html /\ LESS \in {msg[i] : i \in 1..Len(msg)} => ~Says([w EXCEPT !.fmsg = HtmlOf(HtmlOf(msg))]))

Cases == Emit([k |-> "told", q |-> msg, ask |-> ty, place |-> src, o |-> there, infile |-> html, qs |-> <<Q>>])
=============================================================================
