------------------------------ MODULE MCCalendar -----------------------------
(***************************************************************************)
(* The device clock ticking through every day of 2000-2099 (one state per  *)
(* day): dates follow each other, encoding and decoding are inverse, and   *)
(* the seconds-since-2000 representation agrees with the calendar.         *)
(***************************************************************************)
EXTENDS Calendar, TLC
VARIABLES date, days
NextDate(d) == IF d[3] < DaysIn(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
               ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
Init == date = <<2000, 1, 1>> /\ days = 0
Next == date[1] < 2100 /\ date' = NextDate(date) /\ days' = days + 1
Spec == Init /\ [][Next]_<<date, days>>

T(h, m, s) == date \o <<h, m, s>>
\* A different time of day on every day, walking through all 86400 seconds.
Tod == LET x == (days * 47381) % 86400 IN <<x \div 3600, (x % 3600) \div 60, x % 60>>
RoundTrip == date[1] < 2100 =>
  /\ LET t == date \o Tod IN ValidTimeBytes(TimeToBytes(t)) /\ TimeOf(TimeToBytes(t)) = t
  /\ \A f \in 0..3 : LET b == [TimeToBytes(date \o Tod) EXCEPT ![3] = @ + 64 * f] IN
        ValidTimeBytes(b) /\ TimeOf(b) = date \o Tod
        /\ DstOf(b) = f \div 2 /\ DstSupportedOf(b) = f % 2
DayNumbers == DateOf(days) = date /\ DaysBeforeYear(date[1]) <= days
Refused == date[1] = 2100 => ~Encodable(date \o Tod)
=============================================================================
