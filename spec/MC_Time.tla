------------------------------ MODULE MC_Time ------------------------------
(***************************************************************************)
(* Points in time around the turns of days, months and years, written in   *)
(* several zones, against each other with every comparison.                *)
(***************************************************************************)
EXTENDS Cases

VARIABLES date, clock, zone          \* the value in the document

Dates == IF Bound("DATES", 0) = 1
         THEN {"1969-12-31", "1970-01-01", "1999-12-31", "2000-02-28", "2000-02-29", "2000-03-01", "2001-02-28",
               "2001-03-01", "2020-02-29", "2020-03-01", "2020-12-31", "2021-01-01", "1900-02-28", "1900-03-01"}
         ELSE {"1969-12-31", "1970-01-01", "2000-02-29", "2000-03-01", "2020-12-31", "2021-01-01", "1900-03-01"}
Clocks == {"00:00:00", "00:00:01", "23:59:59", "12:00:00", "23:59:59.999999999", "00:00:00.5", "00:30:00"}
Zones == {"Z", "+00:00", "-00:30", "+01:00", "-12:00", "+14:00"}

vars == <<date, clock, zone>>
Init == date \in Dates /\ clock = "" /\ zone = ""
Next ==
    \/ clock = "" /\ clock' \in Clocks /\ UNCHANGED <<date, zone>>
    \/ clock # "" /\ zone = "" /\ zone' \in Zones /\ UNCHANGED <<date, clock>>
Spec == Init /\ [][Next]_vars

Written3(d, c, z) == X(IF c = "" THEN d ELSE IF z = "" THEN d \o " " \o c ELSE d \o "T" \o c \o z)
Text == Written3(date, clock, zone)

(* the days from 1900-01-01 on, by counting years and months *)
RECURSIVE YearDays(_)
YearDays(y) == IF y = 1900 THEN 0 ELSE YearDays(y - 1) + (IF IsLeap(y - 1) THEN 366 ELSE 365)
RECURSIVE MonthDays(_, _)
MonthDays(y, m) == IF m = 1 THEN 0 ELSE MonthDays(y, m - 1) + DaysIn(y, m - 1)
Counted(s) == LET y == NatAt(s, 1, 4) IN YearDays(y) + MonthDays(y, NatAt(s, 6, 2)) + NatAt(s, 9, 2) - 1

(* minutes from UTC *)
ZoneMinutes(z) ==
    CASE z = "-00:30" -> -30 [] z = "+01:00" -> 60 [] z = "-12:00" -> -720 [] z = "+14:00" -> 840 [] OTHER -> 0
Halves(c) == IF c = "23:59:59.999999999" THEN 2 ELSE IF c = "00:00:00.5" THEN 1 ELSE 0
Seconds(c) ==
    CASE c = "" -> 0 [] c = "00:00:01" -> 1 [] c = "12:00:00" -> 43200 [] c = "00:30:00" -> 1800
      [] c \in {"23:59:59", "23:59:59.999999999"} -> 86399 [] OTHER -> 0
(* day, second (possibly of a neighbouring day) and a rank for the fraction *)
Rank(d, c, z) == <<Counted(X(d)), Seconds(c) - 60 * ZoneMinutes(z), Halves(c)>>
Earlier(a, b) ==
    LET s == (a[1] - b[1]) * 86400 + (a[2] - b[2])
    IN IF a[1] - b[1] > 3 THEN 1 ELSE IF b[1] - a[1] > 3 THEN -1
       ELSE IF s # 0 THEN CmpInt(s, 0) ELSE CmpInt(a[3], b[3])

(* the other side: a date or a full timestamp of the query *)
Others == {<<d, "", "">> : d \in Dates} \cup (Dates \X {"00:00:00", "23:59:59", "00:00:00.5"} \X {"Z", "-00:30", "+14:00"})

Agree ==
    LET t == DocTime(Text) IN
    /\ t.k = "yes"
    /\ \A o \in Others :
         LET s == Written3(o[1], o[2], o[3])
             l == TimeLiteral(s, 1, Len(s) + 1)
         IN l.ok /\ CmpTime(t.t, l.t) = Earlier(Rank(date, clock, zone), Rank(o[1], o[2], o[3]))

(* the same point in time in the other ways documents may use *)
YearOf(d) == SubSeq(d, 1, 4)
MonthOf(d) == SubSeq(d, 6, 7)
DayOf(d) == SubSeq(d, 9, 10)
MonthName(d) ==
    CASE MonthOf(d) = "01" -> "January" [] MonthOf(d) = "02" -> "February" [] MonthOf(d) = "03" -> "March" [] OTHER -> "December"
Short(w) == SubSeq(w, 1, 3)
WeekdayName(d) == <<"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed">>[((Counted(X(d)) - Counted(X("1970-01-01"))) % 7) + 1]
OneDigit(d) == IF SubSeq(d, 1, 1) = "0" THEN SubSeq(d, 2, 2) ELSE d
Blank(d) == IF SubSeq(d, 1, 1) = "0" THEN " " \o SubSeq(d, 2, 2) ELSE d
Whole == Halves(clock) = 0
OtherWays ==
    LET y == YearOf(date)  m == MonthOf(date)  d == DayOf(date)  w == MonthName(date)  c == clock
        zd == IF zone \in {"", "Z"} THEN "+0000" ELSE SubSeq(zone, 1, 3) \o SubSeq(zone, 5, 6)
        utc == zone \in {"Z", "+00:00"}
    IN IF clock = ""
       THEN {Short(w) \o " " \o d \o ", " \o y, w \o " " \o OneDigit(d) \o ", " \o y, OneDigit(d) \o " " \o Short(w) \o " " \o y,
             d \o " " \o w \o " " \o y, y \o "/" \o m \o "/" \o d, m \o "/" \o d \o "/" \o y,
             OneDigit(m) \o "/" \o OneDigit(d) \o "/" \o y, y \o m \o d, y \o "-" \o Short(w) \o "-" \o d, y \o "." \o m \o "." \o d}
       ELSE IF zone = "" THEN (IF ~Whole THEN {} ELSE
            {Short(w) \o " " \o d \o ", " \o y \o " " \o c, w \o " " \o OneDigit(d) \o ", " \o y \o " " \o c,
             OneDigit(d) \o " " \o Short(w) \o " " \o y \o " " \o c, y \o "/" \o m \o "/" \o d \o " " \o c,
             OneDigit(m) \o "/" \o OneDigit(d) \o "/" \o y \o " " \o c,
             y \o m \o d \o SubSeq(c, 1, 2) \o SubSeq(c, 4, 5) \o SubSeq(c, 7, 8), date \o "T" \o c, date \o " " \o c \o " UTC",
             WeekdayName(date) \o " " \o Short(w) \o " " \o Blank(d) \o " " \o c \o " " \o y,
             WeekdayName(date) \o " " \o Short(w) \o " " \o Blank(d) \o " " \o c \o " UTC " \o y,
             WeekdayName(date) \o ", " \o d \o " " \o Short(w) \o " " \o y \o " " \o c \o " GMT"}
            \cup (IF SubSeq(c, 7, 8) = "00" THEN {date \o " " \o SubSeq(c, 1, 5)} ELSE {}))
       ELSE {date \o "T" \o c \o zd}
            \cup (IF utc THEN {date \o " " \o c \o " +0000 UTC"} ELSE {})
            \cup (IF ~Whole THEN {} ELSE
                  {date \o " " \o c \o " " \o zd, WeekdayName(date) \o " " \o Short(w) \o " " \o d \o " " \o c \o " " \o zd \o " " \o y,
                   WeekdayName(date) \o ", " \o d \o " " \o Short(w) \o " " \o y \o " " \o c \o " " \o zd}
                  \cup (IF zone = "Z" THEN {} ELSE {date \o " " \o c \o " " \o zone}))
SameTime == \A t \in OtherWays : DocTime(X(t)) = DocTime(Text)

OtherSeq == TLCEval(Listed({Written3(o[1], o[2], o[3]) : o \in Others}))
Ops == <<":", ":<", ":<=", ":>", ":>=">>
Queries == TLCEval(ConcatAll([j \in 1..Len(Ops) |-> [i \in 1..Len(OtherSeq) |-> X("a") \o X(Ops[j]) \o OtherSeq[i]]]))
Ranges == <<X("a:><(1969-12-31,1970-01-01)"), X("a:><(2000-02-29,2000-03-01)"), X("a:><(2020-12-31,2021-01-01)"),
            X("a:><(2020-12-31T23:59:59Z,2021-01-01T00:00:00.5Z)"), X("a:><(1900-03-01,2000-02-29T00:00:00Z)")>>
Cases == Emit([k |-> "table", qs |-> Queries \o Ranges, ds |-> <<Obj(<<Mem(X("a"), Str(Text))>>)>>])
(* in the other ways, against the day and, as far as it can be written in a query, the time itself *)
Near == IF zone = "" THEN <<X(date)>> ELSE <<X(date), Text>>
NearQueries == ConcatAll([j \in 1..Len(Ops) |-> [i \in 1..Len(Near) |-> X("a") \o X(Ops[j]) \o Near[i]]])
               \o <<X("a:><(1970-01-01,2000-02-29)"), X("a:><(2000-03-01,2021-01-01)")>>
OtherDocs == LET w == Listed(OtherWays) IN [i \in 1..Len(w) |-> Obj(<<Mem(X("a"), Str(X(w[i])))>>)]
OtherCases == Len(OtherDocs) > 0 => Emit([k |-> "table", qs |-> NearQueries, ds |-> OtherDocs])
=============================================================================
