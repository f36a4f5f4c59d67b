-------------------------------- MODULE Told --------------------------------
(***************************************************************************)
(* The forms in which a message is written: as text, as JSON, and by a     *)
(* formatter.  A message has a text, a kind and a position, or none        *)
(* (line 0).  Every form is read back here and has to say what the message *)
(* says.                                                                   *)
(***************************************************************************)
EXTENDS Grammar, JsonText

W_HINT == <<72, 73, 78, 84>>
W_WARNING == <<87, 65, 82, 78, 73, 78, 71>>
W_ERROR == <<69, 82, 82, 79, 82>>
W_info == <<105, 110, 102, 111>>
W_warning == <<119, 97, 114, 110, 105, 110, 103>>
W_error == <<101, 114, 114, 111, 114>>
W_type == <<116, 121, 112, 101>>
W_message == <<109, 101, 115, 115, 97, 103, 101>>
W_position == <<112, 111, 115, 105, 116, 105, 111, 110>>
W_line == <<108, 105, 110, 101>>
W_column == <<99, 111, 108, 117, 109, 110>>
W_offset == <<111, 102, 102, 115, 101, 116>>
W_length == <<108, 101, 110, 103, 116, 104>>

KindWord(ty) == CASE ty = "HINT" -> W_HINT [] ty = "WARNING" -> W_WARNING [] ty = "ERROR" -> W_ERROR
ShownKind(ty) == CASE ty = "HINT" -> W_info [] ty = "WARNING" -> W_warning [] ty = "ERROR" -> W_error

(* --------------------------------- JSON --------------------------------- *)
(* what the JSON string whose contents are i .. e-1 says *)
EscapedChar(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
RECURSIVE Saying(_, _, _)
Saying(s, i, e) ==
    IF i >= e THEN <<>>
    ELSE IF s[i] # BSLASH THEN <<s[i]>> \o Saying(s, i + 1, e)
    ELSE IF s[i + 1] # 117 THEN <<EscapedChar(s[i + 1])>> \o Saying(s, i + 2, e)
    ELSE LET h == HexAt(s, i + 2)
             l == IF Has(s, i + 6, <<BSLASH, 117>>) /\ i + 12 <= e THEN HexAt(s, i + 8) ELSE 0
         IN IF h \in 55296..56319 /\ l \in 56320..57343
            THEN <<65536 + (h - 55296) * 1024 + (l - 56320)>> \o Saying(s, i + 12, e)
            ELSE <<h>> \o Saying(s, i + 6, e)

(* Where the values of the members called w start, in the object whose first
   member is at i. *)
RECURSIVE MembersCalled(_, _, _)
MembersCalled(s, i, w) ==
    LET k == JStrEnd(s, i + 1)
        v == SkipWs(s, SkipWs(s, k) + 1)
        j == SkipWs(s, JValEnd(s, v))
        rest == IF At(s, j) = COMMA THEN MembersCalled(s, SkipWs(s, j + 1), w) ELSE <<>>
    IN IF Saying(s, i + 1, k - 1) = w THEN <<v>> \o rest ELSE rest
(* the one value of that name in the object at i, 0 if there is none or several *)
MemberAt(s, i, w) ==
    IF At(s, i) # LBRACE \/ At(s, SkipWs(s, i + 1)) # QUOTE THEN 0
    ELSE LET vs == MembersCalled(s, SkipWs(s, i + 1), w) IN IF Len(vs) = 1 THEN vs[1] ELSE 0

SaysText(s, i, t) == i # 0 /\ At(s, i) = QUOTE /\ Saying(s, i + 1, JStrEnd(s, i + 1) - 1) = t
IntText(n) == IF n < 0 THEN <<MINUS>> \o NatText(-n) ELSE NatText(n)
SaysInt(s, i, n) == i # 0 /\ SubSeq(s, i, JNumEnd(s, i) - 1) = IntText(n)
SaysPlace(s, i, p) ==
    /\ i # 0
    /\ SaysInt(s, MemberAt(s, i, W_line), p[1])
    /\ SaysInt(s, MemberAt(s, i, W_column), p[2])
    /\ SaysInt(s, MemberAt(s, i, W_offset), p[3])
    /\ SaysInt(s, MemberAt(s, i, W_length), p[4])

(* ty is "" for errors of the parser, which are of no other kind *)
JsonTells(j, ty, msg, p) ==
    /\ ValidJson(j)
    /\ LET i == SkipWs(j, 1) IN
       /\ SaysText(j, MemberAt(j, i, W_message), msg)
       /\ (ty # "" => SaysText(j, MemberAt(j, i, W_type), KindWord(ty)))
       /\ SaysPlace(j, MemberAt(j, i, W_position), p)

(* --------------------------------- text --------------------------------- *)
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Contains(s, w) == \E i \in 1..(Len(s) - Len(w) + 1) : Has(s, i, w)
(* the number n stands in s *)
NamesNumber(s, n) ==
    \E i \in 1..Len(s) :
       /\ IsDigit(s[i]) /\ ~IsDigit(At(s, i - 1))
       /\ SubSeq(s, i, SkipDigits(s, i) - 1) = NatText(n)
(* line and column stand in s, in this order *)
NamesPlace(s, l, c) ==
    \E i \in 1..Len(s) : IsDigit(s[i]) /\ ~IsDigit(At(s, i - 1)) /\
        LET k == SkipDigits(s, i) IN SubSeq(s, i, k - 1) = NatText(l) /\ NamesNumber(SubSeq(s, k, Len(s)), c)

TextTells(s, ty, msg, p) ==
    /\ EndsWith(s, msg)
    /\ LET before == SubSeq(s, 1, Len(s) - Len(msg)) IN
       /\ (ty # "" => \A k \in {"HINT", "WARNING", "ERROR"} : Contains(before, KindWord(k)) <=> k = ty)
       /\ (p[1] > 0 => NamesPlace(before, p[1], p[2]))

(* --------------------------------- HTML --------------------------------- *)
E_lt == <<38, 108, 116, 59>>
E_gt == <<38, 103, 116, 59>>
E_amp == <<38, 97, 109, 112, 59>>
E_quot == <<38, 113, 117, 111, 116, 59>>
E_apos == <<38, 97, 112, 111, 115, 59>>
RECURSIVE SkipHex(_, _), HexNat(_, _, _)
SkipHex(s, i) == IF IsHex(At(s, i)) THEN SkipHex(s, i + 1) ELSE i
HexNat(s, i, e) == IF i >= e THEN 0 ELSE HexNat(s, i, e - 1) * 16 + HexVal(s[e - 1])

(* What a browser shows for s.  -2 stands for markup: something that is not
   shown but takes effect. *)
RECURSIVE Browsed(_, _)
Browsed(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF s[i] \in {LESS, GREATER} THEN <<-2>> \o Browsed(s, i + 1)
    ELSE IF s[i] # 38 THEN <<s[i]>> \o Browsed(s, i + 1)
    ELSE IF Has(s, i, E_lt) THEN <<LESS>> \o Browsed(s, i + 4)
    ELSE IF Has(s, i, E_gt) THEN <<GREATER>> \o Browsed(s, i + 4)
    ELSE IF Has(s, i, E_amp) THEN <<38>> \o Browsed(s, i + 5)
    ELSE IF Has(s, i, E_quot) THEN <<QUOTE>> \o Browsed(s, i + 6)
    ELSE IF Has(s, i, E_apos) THEN <<39>> \o Browsed(s, i + 6)
    ELSE IF At(s, i + 1) = HASH
    THEN LET hex == At(s, i + 2) \in {120, 88}
             b == IF hex THEN i + 3 ELSE i + 2
             e == IF hex THEN SkipHex(s, b) ELSE SkipDigits(s, b)
         IN IF e > b /\ e - b <= 6 /\ At(s, e) = 59
            THEN <<IF hex THEN HexNat(s, b, e) ELSE NatAt(s, b, e - b)>> \o Browsed(s, e + 1)
            ELSE <<-2>> \o Browsed(s, i + 1)
    ELSE <<-2>> \o Browsed(s, i + 1)
Reads(s, html, t) == IF html THEN Browsed(s, 1) = t ELSE s = t

(* ------------------------------- formatters ------------------------------ *)
(* The terminal form starts with the kind, in capitals, and the text; what is
   left is about the query. *)
TerminalTells(s, ty, msg) ==
    LET w == [i \in 1..Len(ShownKind(ty)) |-> Upper(ShownKind(ty)[i])]
        head == w \o <<COLON, SP>> \o msg
    IN Has(s, 1, head) /\ At(s, Len(head) + 1) \in {LF, EOT}

(* e: src ("message" or "error"), ty, msg, p; text, json; html, q and what a
   template printed: fty, fmsg, fq; term *)
ToldFlaw(e) ==
    LET ty == IF e.src = "error" THEN "" ELSE e.ty IN
    IF ~TextTells(e.text, ty, e.msg, e.p) THEN "text"
    ELSE IF ~JsonTells(e.json, ty, e.msg, e.p) THEN "json"
    ELSE IF ~Reads(e.fty, e.html, ShownKind(e.ty)) THEN "kind printed"
    ELSE IF ~Reads(e.fmsg, e.html, e.msg) THEN "text printed"
    ELSE IF ~Reads(e.fq, e.html, e.q) THEN "query printed"
    ELSE IF ~TerminalTells(e.term, e.ty, e.msg) THEN "terminal"
    ELSE ""
=============================================================================
