----------------------------- MODULE MC_Handed ------------------------------
(***************************************************************************)
(* A reader delivers a query byte by byte, in any pieces, with empty reads *)
(* in between, and ends or fails at any point.                             *)
(***************************************************************************)
EXTENDS Cases

Pieces == Bound("PIECES", 4)

Texts == {"a:1", "a:(1,2)", "a:1 OR b:2", "!(a:x)", "a:\"x\" ", ""}

(* text: the query, at: bytes delivered, sizes: of the pieces so far, end:
   "" (open), "after" (an end of its own), "with" (the last piece) or "fail" *)
VARIABLES text, at, sizes, end
vars == <<text, at, sizes, end>>

(* a character that takes several bytes: 233 is C3 A9 *)
Chars1 == IF text = "!(a:x)" THEN <<BANG, LPAR, 233, COLON, 49, RPAR>> ELSE X(text)
RECURSIVE NBytes(_)
NBytes(s) == IF s = <<>> THEN 0 ELSE (IF Head(s) < 128 THEN 1 ELSE 2) + NBytes(Tail(s))
Size1 == NBytes(Chars1)

Last1 == IF sizes = <<>> THEN -1 ELSE sizes[Len(sizes)]
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))

Init == text \in Texts /\ at = 0 /\ sizes = <<>> /\ end = ""
Deliver == /\ end = "" /\ Len(sizes) < Pieces
           /\ \E n \in 0..(Size1 - at) :
                /\ (n = 0 => Last1 # 0)
                /\ at' = at + n /\ sizes' = Append(sizes, n)
           /\ UNCHANGED <<text, end>>
Finish == /\ end = ""
          /\ \/ at = Size1 /\ end' \in {"after", "with"} /\ (end' = "with" => Last1 > 0)
             \/ end' = "fail"
          /\ UNCHANGED <<text, at, sizes>>
Next == Deliver \/ Finish
Spec == Init /\ [][Next]_vars

Delivered == at = Total(sizes) /\ at <= Size1 /\ (end \in {"after", "with"} => at = Size1)

(* an outcome for the text, and what may be said of this delivery *)
Out1(r, t) == [r |-> r, tree |-> t, leaves |-> IF r = "ok" THEN 1 ELSE 0, p |-> <<>>]
Seen1(o) == [parts |-> 0, base |-> Out1("ok", "t"), ways |-> <<[rest |-> end # "fail", o |-> o]>>]
Judged ==
    end # "" =>
      /\ (HandedFlaw(Seen1(Out1("ok", "t"))) = "") = (end # "fail")
      /\ (HandedFlaw(Seen1(Out1("err", ""))) = "") = (end = "fail")
      /\ HandedFlaw(Seen1(Out1("ok", "u"))) # ""

Cases == end # "" => Emit([k |-> "handed", q |-> Chars1, sizes |-> sizes, end |-> end])
=============================================================================
