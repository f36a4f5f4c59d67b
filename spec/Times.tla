------------------------------- MODULE Times -------------------------------
(***************************************************************************)
(* Instants are [d, s, ns]: days since 1970-01-01, seconds of the UTC day, *)
(* nanoseconds.                                                            *)
(***************************************************************************)
EXTENDS Numbers, TLC

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(y, m, d) == m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= DaysIn(y, m)

(* days since the epoch of a date of the proleptic Gregorian calendar *)
DayNumber(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 719468

(* add a number of seconds to an instant *)
Shift(d, s, ns, by) ==
    LET t == s + by
        q == t \div 86400
    IN [d |-> d + q, s |-> t - q * 86400, ns |-> ns]

CmpInt(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpTime(a, b) ==
    IF a.d # b.d THEN CmpInt(a.d, b.d)
    ELSE IF a.s # b.s THEN CmpInt(a.s, b.s)
    ELSE CmpInt(a.ns, b.ns)

(* scanners: end position (exclusive) or 0 *)
ScanDate(s, i) ==
    IF NDigits(s, i, 4) /\ At(s, i + 4) = MINUS /\ NDigits(s, i + 5, 2)
       /\ At(s, i + 7) = MINUS /\ NDigits(s, i + 8, 2)
    THEN i + 10 ELSE 0
ScanClock(s, i) ==
    IF NDigits(s, i, 2) /\ At(s, i + 2) = COLON /\ NDigits(s, i + 3, 2)
       /\ At(s, i + 5) = COLON /\ NDigits(s, i + 6, 2)
    THEN LET j == i + 8 IN
         IF At(s, j) = DOT /\ IsDigit(At(s, j + 1)) THEN SkipDigits(s, j + 1) ELSE j
    ELSE 0
ScanZone(s, i) ==
    IF At(s, i) \in {90, 122} THEN i + 1
    ELSE IF At(s, i) \in {PLUS, MINUS} /\ NDigits(s, i + 1, 2) /\ At(s, i + 3) = COLON /\ NDigits(s, i + 4, 2)
    THEN i + 6 ELSE 0
(* full RFC 3339 date-time as the query grammar delimits it *)
ScanDateTime(s, i) ==
    LET a == ScanDate(s, i)
        b == IF a # 0 /\ At(s, a) \in {84, 116, SP} THEN ScanClock(s, a + 1) ELSE 0
    IN IF b = 0 THEN 0 ELSE ScanZone(s, b)

(* nanoseconds from the fraction digits s[i..j-1]; digits past the ninth are dropped *)
Fraction(s, i, j) ==
    LET n == MinN(j - i, 9)
        RECURSIVE Pad(_, _)
        Pad(v, k) == IF k = 9 THEN v ELSE Pad(v * 10, k + 1)
    IN IF n <= 0 THEN 0 ELSE Pad(NatAt(s, i, n), n)

NoTime == [ok |-> FALSE, t |-> [d |-> 0, s |-> 0, ns |-> 0]]
YearAt(s, i) == NatAt(s, i, 4)
MonthAt(s, i) == NatAt(s, i + 5, 2)
DayAt(s, i) == NatAt(s, i + 8, 2)

DateValue(s, i) ==
    IF ValidDate(YearAt(s, i), MonthAt(s, i), DayAt(s, i))
    THEN [ok |-> TRUE, t |-> [d |-> DayNumber(YearAt(s, i), MonthAt(s, i), DayAt(s, i)), s |-> 0, ns |-> 0]]
    ELSE NoTime

(* value of the date-time s[i..j-1] with its clock at c and its zone at z (z = 0: UTC).
   Zone offsets of 24 hours or 60 minutes are left undecided (und). *)
DateTimeValue(s, i, c, z) ==
    LET h == NatAt(s, c, 2)
        mi == NatAt(s, c + 3, 2)
        se == NatAt(s, c + 6, 2)
        fe == ScanClock(s, c)
        ns == IF fe > c + 8 THEN Fraction(s, c + 9, fe) ELSE 0
        signed == z # 0 /\ At(s, z) \in {PLUS, MINUS}
        zh == IF signed THEN NatAt(s, z + 1, 2) ELSE 0
        zm == IF signed THEN NatAt(s, z + 4, 2) ELSE 0
        off == IF signed /\ At(s, z) = PLUS THEN 0 - (zh * 3600 + zm * 60) ELSE zh * 3600 + zm * 60
        ok == /\ ValidDate(YearAt(s, i), MonthAt(s, i), DayAt(s, i))
              /\ h <= 23 /\ mi <= 59 /\ se <= 59
              /\ zh <= 24 /\ zm <= 60
    IN [ok |-> ok, und |-> ok /\ (zh = 24 \/ zm = 60),
        t |-> IF ok THEN Shift(DayNumber(YearAt(s, i), MonthAt(s, i), DayAt(s, i)), h * 3600 + mi * 60 + se, ns, off)
              ELSE [d |-> 0, s |-> 0, ns |-> 0]]

(* A timestamp literal of a query, s[i..j-1].  Upper-case T and Z are required. *)
TimeLiteral(s, i, j) ==
    IF j - i = 10 THEN [ok |-> DateValue(s, i).ok, und |-> FALSE, t |-> DateValue(s, i).t, day |-> TRUE]
    ELSE LET z == ScanClock(s, i + 11)
             v == DateTimeValue(s, i, i + 11, z)
             caps == At(s, i + 10) = 84 /\ At(s, z) # 122
         IN [ok |-> v.ok /\ caps, und |-> v.und, t |-> v.t, day |-> FALSE]

(* ---------------- the other ways to write a date in a document ---------- *)
(* A way of writing is a sequence of parts: a code point stands for itself,
   the following for what they say. *)
Year4 == -11    Month2 == -12   Day2 == -13   Month12 == -14   Day12 == -15
MonthShort == -16   MonthLong == -17   Weekday == -18   DayBlank == -19
HourMinute == -20   SecondsToo == -21   Fraction0 == -22   ZoneDigits == -23   ZoneColon == -24
HourMinuteSecond2 == -25

MonthWords == <<
    <<74, 97, 110, 117, 97, 114, 121>>, <<70, 101, 98, 114, 117, 97, 114, 121>>, <<77, 97, 114, 99, 104>>,
    <<65, 112, 114, 105, 108>>, <<77, 97, 121>>, <<74, 117, 110, 101>>, <<74, 117, 108, 121>>,
    <<65, 117, 103, 117, 115, 116>>, <<83, 101, 112, 116, 101, 109, 98, 101, 114>>,
    <<79, 99, 116, 111, 98, 101, 114>>, <<78, 111, 118, 101, 109, 98, 101, 114>>,
    <<68, 101, 99, 101, 109, 98, 101, 114>> >>
(* from Thursday on, the weekday of day 0 *)
WeekdayWords == << <<84, 104, 117>>, <<70, 114, 105>>, <<83, 97, 116>>, <<83, 117, 110>>, <<77, 111, 110>>,
                   <<84, 117, 101>>, <<87, 101, 100>> >>
WordGMT == <<71, 77, 84>>
WordUTC == <<85, 84, 67>>

(* May 2, 2006;  2 May 2006;  2006/05/02;  5/2/2006 (month first);  20060502;
   2006-May-02;  2006.05.02 *)
DateWays == <<
    <<MonthShort, SP, Day12, COMMA, SP, Year4>>, <<MonthLong, SP, Day12, COMMA, SP, Year4>>,
    <<Day12, SP, MonthShort, SP, Year4>>, <<Day12, SP, MonthLong, SP, Year4>>,
    <<Year4, SLASH, Month2, SLASH, Day2>>, <<Month12, SLASH, Day12, SLASH, Year4>>,
    <<Year4, Month2, Day2>>, <<Year4, MINUS, MonthShort, MINUS, Day2>>, <<Year4, DOT, Month2, DOT, Day2>> >>
TimeWays == <<
    <<MonthShort, SP, Day12, COMMA, SP, Year4, SP, HourMinute, SecondsToo>>,
    <<MonthLong, SP, Day12, COMMA, SP, Year4, SP, HourMinute, SecondsToo>>,
    <<Day12, SP, MonthShort, SP, Year4, SP, HourMinute, SecondsToo>>,
    <<Year4, SLASH, Month2, SLASH, Day2, SP, HourMinute, SecondsToo>>,
    <<Month12, SLASH, Day12, SLASH, Year4, SP, HourMinute, SecondsToo>>,
    <<Month12, SLASH, Day12, SLASH, Year4, SP, HourMinute>>,
    <<Year4, Month2, Day2, HourMinuteSecond2>>,
    <<Year4, MINUS, Month2, MINUS, Day2, SP, HourMinute>>,
    <<Year4, MINUS, Month2, MINUS, Day2, 84, HourMinute, SecondsToo>>,
    <<Year4, MINUS, Month2, MINUS, Day2, 84, HourMinute, SecondsToo, ZoneDigits>>,
    <<Year4, MINUS, Month2, MINUS, Day2, 84, HourMinute, SecondsToo, Fraction0, ZoneDigits>>,
    <<Year4, MINUS, Month2, MINUS, Day2, SP, HourMinute, SecondsToo, SP, ZoneDigits>>,
    <<Year4, MINUS, Month2, MINUS, Day2, SP, HourMinute, SecondsToo, SP, ZoneColon>>,
    <<Year4, MINUS, Month2, MINUS, Day2, SP, HourMinute, SecondsToo, 90>>,
    <<Year4, MINUS, Month2, MINUS, Day2, SP, HourMinute, SecondsToo, SP>> \o WordUTC,
    <<Year4, MINUS, Month2, MINUS, Day2, SP, HourMinute, SecondsToo, SP, PLUS, 48, 48, 48, 48, SP>> \o WordUTC,
    <<Year4, MINUS, Month2, MINUS, Day2, SP, HourMinute, SecondsToo, Fraction0, SP, PLUS, 48, 48, 48, 48, SP>> \o WordUTC,
    <<Weekday, SP, MonthShort, SP, DayBlank, SP, HourMinute, SecondsToo, SP, Year4>>,
    <<Weekday, SP, MonthShort, SP, Day2, SP, HourMinute, SecondsToo, SP, ZoneDigits, SP, Year4>>,
    <<Weekday, SP, MonthShort, SP, DayBlank, SP, HourMinute, SecondsToo, SP>> \o WordUTC \o <<SP, Year4>>,
    <<Weekday, COMMA, SP, Day2, SP, MonthShort, SP, Year4, SP, HourMinute, SecondsToo, SP>> \o WordGMT,
    <<Weekday, COMMA, SP, Day2, SP, MonthShort, SP, Year4, SP, HourMinute, SecondsToo, SP>> \o WordUTC,
    <<Weekday, COMMA, SP, Day2, SP, MonthShort, SP, Year4, SP, HourMinute, SecondsToo, SP, ZoneDigits>> >>
LOCAL IsWorded(w) == w[1] \in {MonthShort, MonthLong, Weekday}
LOCAL IsNumbered(w) == ~IsWorded(w)
WordedWays == TLCEval(SelectSeq(DateWays \o TimeWays, IsWorded))
NumberedWays == TLCEval(SelectSeq(DateWays \o TimeWays, IsNumbered))

(* what has been read: up to position i (0 if s is not written this way) *)
Reading == [i |-> 1, y |-> 0, m |-> 0, d |-> 0, sec |-> 0, ns |-> 0, off |-> 0, wd |-> -1, fits |-> TRUE]
OneOrTwo(s, i) == IF ~IsDigit(At(s, i)) THEN 0 ELSE IF IsDigit(At(s, i + 1)) THEN 2 ELSE 1
CalendarWord(s, i, words, n) ==
    LET cut(w) == IF n = 0 \/ n > Len(w) THEN w ELSE SubSeq(w, 1, n)
        hits == {k \in 1..Len(words) : Has(s, i, cut(words[k]))}
    IN IF hits = {} THEN 0 ELSE CHOOSE k \in hits : TRUE
ReadPart(s, r, p) ==
    LET i == r.i
        lost == [r EXCEPT !.i = 0]
        two(at) == NatAt(s, at, 2)
        zone(at, colon) ==
            LET c == IF colon THEN 1 ELSE 0
                ok == At(s, at) \in {PLUS, MINUS} /\ NDigits(s, at + 1, 2) /\ (colon => At(s, at + 3) = COLON) /\ NDigits(s, at + 3 + c, 2)
                v == two(at + 1) * 3600 + two(at + 3 + c) * 60
            IN IF ~ok THEN lost
               ELSE [r EXCEPT !.i = at + 5 + c, !.off = IF At(s, at) = PLUS THEN 0 - v ELSE v,
                              !.fits = r.fits /\ two(at + 1) <= 23 /\ two(at + 3 + c) <= 59]
    IN IF p >= 0 THEN (IF At(s, i) = p THEN [r EXCEPT !.i = i + 1] ELSE lost)
       ELSE CASE p = Year4 -> IF NDigits(s, i, 4) THEN [r EXCEPT !.i = i + 4, !.y = NatAt(s, i, 4)] ELSE lost
              [] p = Month2 -> IF NDigits(s, i, 2) THEN [r EXCEPT !.i = i + 2, !.m = two(i)] ELSE lost
              [] p = Day2 -> IF NDigits(s, i, 2) THEN [r EXCEPT !.i = i + 2, !.d = two(i)] ELSE lost
              [] p = Month12 -> IF OneOrTwo(s, i) = 0 THEN lost ELSE [r EXCEPT !.i = i + OneOrTwo(s, i), !.m = NatAt(s, i, OneOrTwo(s, i))]
              [] p = Day12 -> IF OneOrTwo(s, i) = 0 THEN lost ELSE [r EXCEPT !.i = i + OneOrTwo(s, i), !.d = NatAt(s, i, OneOrTwo(s, i))]
              [] p = DayBlank ->
                    IF At(s, i) = SP /\ IsDigit(At(s, i + 1)) THEN [r EXCEPT !.i = i + 2, !.d = NatAt(s, i + 1, 1)]
                    ELSE IF NDigits(s, i, 2) THEN [r EXCEPT !.i = i + 2, !.d = two(i)] ELSE lost
              [] p = MonthShort -> IF CalendarWord(s, i, MonthWords, 3) = 0 THEN lost ELSE [r EXCEPT !.i = i + 3, !.m = CalendarWord(s, i, MonthWords, 3)]
              [] p = MonthLong ->
                    LET k == CalendarWord(s, i, MonthWords, 0) IN
                    IF k = 0 THEN lost ELSE [r EXCEPT !.i = i + Len(MonthWords[k]), !.m = k]
              [] p = Weekday -> IF CalendarWord(s, i, WeekdayWords, 3) = 0 THEN lost ELSE [r EXCEPT !.i = i + 3, !.wd = CalendarWord(s, i, WeekdayWords, 3) - 1]
              [] p = HourMinute ->
                    IF NDigits(s, i, 2) /\ At(s, i + 2) = COLON /\ NDigits(s, i + 3, 2)
                    THEN [r EXCEPT !.i = i + 5, !.sec = two(i) * 3600 + two(i + 3) * 60, !.fits = r.fits /\ two(i) <= 23 /\ two(i + 3) <= 59]
                    ELSE lost
              [] p = SecondsToo ->
                    IF At(s, i) = COLON /\ NDigits(s, i + 1, 2)
                    THEN [r EXCEPT !.i = i + 3, !.sec = r.sec + two(i + 1), !.fits = r.fits /\ two(i + 1) <= 59] ELSE lost
              [] p = HourMinuteSecond2 ->
                    IF NDigits(s, i, 6)
                    THEN [r EXCEPT !.i = i + 6, !.sec = two(i) * 3600 + two(i + 2) * 60 + two(i + 4),
                                   !.fits = r.fits /\ two(i) <= 23 /\ two(i + 2) <= 59 /\ two(i + 4) <= 59]
                    ELSE lost
              [] p = Fraction0 ->
                    LET j == SkipDigits(s, i + 1) IN
                    IF At(s, i) = DOT /\ j > i + 1 /\ j - i <= 10 THEN [r EXCEPT !.i = j, !.ns = Fraction(s, i + 1, j)] ELSE lost
              [] p = ZoneDigits -> zone(i, FALSE)
              [] p = ZoneColon -> zone(i, TRUE)
RECURSIVE ReadWay(_, _, _, _)
ReadWay(s, r, way, k) ==
    IF r.i = 0 THEN r
    ELSE IF k > Len(way) THEN (IF r.i = Len(s) + 1 THEN r ELSE [r EXCEPT !.i = 0])
    ELSE ReadWay(s, ReadPart(s, r, way[k]), way, k + 1)
(* the way s is written, read; i = 0 if in none of them *)
RECURSIVE ReadAnyWay(_, _, _)
ReadAnyWay(s, ways, k) ==
    IF k > Len(ways) THEN [Reading EXCEPT !.i = 0]
    ELSE LET r == ReadWay(s, Reading, ways[k], 1) IN IF r.i # 0 THEN r ELSE ReadAnyWay(s, ways, k + 1)

(* The instant a string of a document spells: [k: "yes", "no" or "und"; t].
   A string that has the form of a date of the query language but names no day
   or time that exists is not a date, nor is one of three characters or less;
   of other strings in a form not listed above nothing is said. *)
DocTime(s) ==
    LET n == Len(s)
        d == ScanDate(s, 1)
        c == IF d # 0 /\ At(s, 11) \in {84, SP} THEN ScanClock(s, 12) ELSE 0
        z == IF c # 0 THEN ScanZone(s, c) ELSE 0
        yes(v) == [k |-> "yes", t |-> v.t]
        no == [k |-> "no", t |-> NoTime.t]
        und == [k |-> "und", t |-> NoTime.t]
        other ==
            IF n > 40 \/ ~IsAlnum(s[1]) THEN und
            ELSE LET r == ReadAnyWay(s, IF IsDigit(s[1]) THEN NumberedWays ELSE WordedWays, 1) IN
                 IF r.i = 0 \/ ~r.fits \/ r.y = 0 \/ ~ValidDate(r.y, r.m, r.d) THEN und
                 ELSE LET day == DayNumber(r.y, r.m, r.d) IN
                      IF r.wd >= 0 /\ r.wd # day % 7 THEN und
                      ELSE [k |-> "yes", t |-> Shift(day, r.sec, r.ns, r.off)]
        whole == d = n + 1 \/ (c # 0 /\ z = n + 1 /\ At(s, 11) = 84 /\ At(s, c) # 122) \/ (c = n + 1 /\ At(s, 11) = SP)
    IN IF ~SomeOf(s, IsDigit) \/ n <= 3 THEN no
       ELSE IF d = 0 THEN other
       ELSE IF ~DateValue(s, 1).ok THEN (IF whole THEN no ELSE und)
       ELSE IF d = n + 1 THEN yes(DateValue(s, 1))
       ELSE IF ~whole THEN other
       ELSE IF At(s, 11) = SP THEN (IF DateTimeValue(s, 1, 12, 0).ok THEN yes(DateTimeValue(s, 1, 12, 0)) ELSE no)
       ELSE IF ~DateTimeValue(s, 1, 12, c).ok THEN no
       ELSE IF DateTimeValue(s, 1, 12, c).und THEN und
       ELSE yes(DateTimeValue(s, 1, 12, c))
=============================================================================
