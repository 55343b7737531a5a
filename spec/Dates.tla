------------------------------- MODULE Dates -------------------------------
(* Dates of the proleptic Gregorian calendar, years 1 to 9999, as            *)
(* microseconds since the start of year 1 (local time), with an optional     *)
(* offset from UTC in minutes.                                               *)
EXTENDS Codes, Rat

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysIn(y, m) == IF m = 2 /\ Leap(y) THEN 29 ELSE MonthDays[m]
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysBefore(y, m - 1) + DaysIn(y, m - 1)
(* whole days since 0001-01-01 *)
YearStart(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
DayNumber(y, m, d) == YearStart(y) + DaysBefore(y, m) + d - 1
LastDay == DayNumber(9999, 12, 31)
(* day number -> <<year, month, day>> *)
YearOf(n) == LET g == BMin(9999, n \div 366 + 1)
                 RECURSIVE Up(_)
                 Up(y) == IF y < 9999 /\ YearStart(y + 1) <= n THEN Up(y + 1) ELSE y
             IN Up(g)
MonthOf(y, k) == CHOOSE m \in 1..12 : DaysBefore(y, m) <= k /\ k < DaysBefore(y, m) + DaysIn(y, m)
DateOf(n) == LET y == YearOf(n)
                 k == n - YearStart(y)
                 m == MonthOf(y, k)
             IN <<y, m, k - DaysBefore(y, m) + 1>>

Num2(s, i) == 10 * (s[i] - 48) + s[i + 1] - 48
AllDigits(s, i, j) == \A k \in i..j : Digit(s[k])
NoDate == [t |-> "no"]
(* the offset s[i..]: <<ok, minutes or 9999>> *)
TzAt(s, i) == IF i > Len(s) THEN <<TRUE, 9999>>
              ELSE IF Len(s) = i + 4 /\ s[i] \in {43, 45} /\ AllDigits(s, i + 1, i + 4) /\ Num2(s, i + 1) < 24 /\ Num2(s, i + 3) < 60
                   THEN <<TRUE, (IF s[i] = 45 THEN -1 ELSE 1) * (60 * Num2(s, i + 1) + Num2(s, i + 3))>>
                   ELSE <<FALSE, 0>>
MicroDay == RMul(RInt(86400), RTen(6))
Micros(y, m, d, sec, us) == RAdd(RAdd(RMul(RInt(DayNumber(y, m, d)), MicroDay), RMul(RInt(sec), RTen(6))), RInt(us))
RECURSIVE FracMicros(_, _, _, _)
FracMicros(s, i, j, n) == IF n = 0 THEN 0 ELSE (IF i < j THEN s[i] - 48 ELSE 0) * (CASE n = 6 -> 100000 [] n = 5 -> 10000 [] n = 4 -> 1000 [] n = 3 -> 100 [] n = 2 -> 10 [] OTHER -> 1)
                                             + FracMicros(s, i + 1, j, n - 1)
MaybeDate(s) == /\ Len(s) >= 5
                /\ Cardinality({i \in 1..Len(s) : s[i] = 45}) >= 2
                /\ \A i \in 1..Len(s) : Digit(s[i]) \/ s[i] \in {45, 58, 84, 46, 43, 90, 32, 116}
(* [t |-> "date", us, tz], [t |-> "no"], or [t |-> "any"] for spellings not  *)
(* in the canonical forms that might still be read as dates                  *)
ParseDate(s) ==
  LET n == Len(s)
      shape == n >= 10 /\ AllDigits(s, 1, 4) /\ s[5] = 45 /\ AllDigits(s, 6, 7) /\ s[8] = 45 /\ AllDigits(s, 9, 10)
      timed == shape /\ n >= 19 /\ s[11] = 84 /\ AllDigits(s, 12, 13) /\ s[14] = 58 /\ AllDigits(s, 15, 16) /\ s[17] = 58 /\ AllDigits(s, 18, 19)
      fe == IF timed /\ n >= 21 /\ s[20] = 46 THEN RunDigit(s, 21) ELSE 20
      z == TzAt(s, IF timed THEN fe ELSE 11)
      y == 100 * Num2(s, 1) + Num2(s, 3)
      m == Num2(s, 6)
      d == Num2(s, 9)
      hh == IF timed THEN Num2(s, 12) ELSE 0
      mm == IF timed THEN Num2(s, 15) ELSE 0
      ss == IF timed THEN Num2(s, 18) ELSE 0
      us == IF timed /\ fe > 21 THEN FracMicros(s, 21, fe, 6) ELSE 0
  IN IF shape /\ z[1] /\ (fe = 20 \/ (fe > 21 /\ fe <= 27))
     THEN IF y >= 1 /\ m >= 1 /\ m <= 12 /\ d >= 1 /\ hh < 24 /\ mm < 60 /\ ss < 60
          THEN IF d <= DaysIn(y, m) THEN [t |-> "date", us |-> Micros(y, m, d, 3600 * hh + 60 * mm + ss, us), tz |-> z[2]] ELSE NoDate
          ELSE NoDate
     ELSE IF MaybeDate(s) THEN [t |-> "any"] ELSE NoDate

Two(k) == <<48 + (k \div 10), 48 + (k % 10)>>
TzText(tz) == IF tz = 9999 THEN <<>>
              ELSE LET a == IF tz < 0 THEN -tz ELSE tz
                   IN (IF tz < 0 THEN <<45>> ELSE <<43>>) \o Two(a \div 60) \o Two(a % 60)
InRange(us) == us.s >= 0 /\ RLt(us, RMul(RInt(LastDay + 1), MicroDay))
PrintDate(us, tz) ==
  LET day == RToInt(RFloor(RDiv(us, MicroDay)))
      rest == RSub(us, RMul(RInt(day), MicroDay))
      sec == RToInt(RFloor(RDiv(rest, RTen(6))))
      mic == RToInt(RSub(rest, RMul(RInt(sec), RTen(6))))
      ymd == DateOf(day)
      date == Zfill(NatCodes(ymd[1]), 4) \o <<45>> \o Two(ymd[2]) \o <<45>> \o Two(ymd[3])
      time == <<84>> \o Two(sec \div 3600) \o <<58>> \o Two((sec \div 60) % 60) \o <<58>> \o Two(sec % 60)
      frac == <<46>> \o Zfill(NatCodes(mic), 6)
  IN date \o (IF rest.s = 0 THEN <<>> ELSE IF mic = 0 THEN time ELSE time \o frac) \o TzText(tz)
(* a date for reading: weekday, day-month-year, and the time when there is one *)
DayNames == << "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday" >>
MonthNames == << "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" >>
ReadableDate(us, tz) ==
  LET day == RToInt(RFloor(RDiv(us, MicroDay)))
      rest == RSub(us, RMul(RInt(day), MicroDay))
      sec == RToInt(RFloor(RDiv(rest, RTen(6))))
      mic == RToInt(RSub(rest, RMul(RInt(sec), RTen(6))))
      ymd == DateOf(day)
      time == C(" at ") \o Two(sec \div 3600) \o <<58>> \o Two((sec \div 60) % 60) \o <<58>> \o Two(sec % 60)
  IN C(DayNames[1 + (day % 7)]) \o C(", ") \o Two(ymd[3]) \o C("-") \o C(MonthNames[ymd[2]]) \o C("-") \o NatCodes(ymd[1])
     \o (IF rest.s = 0 THEN <<>> ELSE IF mic = 0 THEN time ELSE time \o <<46>> \o Zfill(NatCodes(mic), 6))
     \o (IF tz = 9999 THEN <<>> ELSE C(" (") \o TzText(tz) \o C(")"))
(* a period in seconds, rounded to the microsecond *)
ToMicros(sec) == RRound(RMul(sec, RTen(6)))
=============================================================================
