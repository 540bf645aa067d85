------------------------------- MODULE Calendar ------------------------------
(***************************************************************************)
(* Device time: six BCD bytes second, minute, hour (bit 7 summer time, bit *)
(* 6 summer time supported), day, month, year - 2000.  Call messages use   *)
(* seconds since 2000-01-01 instead.  A time is <<y, mo, d, h, mi, s>>.     *)
(***************************************************************************)
EXTENDS Bytes

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                  [] m \in {4, 6, 9, 11} -> 30
                  [] m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                  [] OTHER -> 0

IsTime(t) == /\ t[2] \in 1..12 /\ t[3] \in 1..DaysIn(t[1], t[2])
             /\ t[4] \in 0..23 /\ t[5] \in 0..59 /\ t[6] \in 0..59

Encodable(t) == IsTime(t) /\ t[1] \in 2000..2099

Bcd(n) == 16 * (n \div 10) + (n % 10)
IsBcd(b) == b \div 16 < 10 /\ b % 16 < 10
FromBcd(b) == 10 * (b \div 16) + (b % 16)

TimeToBytes(t) == <<Bcd(t[6]), Bcd(t[5]), Bcd(t[4]), Bcd(t[3]), Bcd(t[2]), Bcd(t[1] - 2000)>>

TimeOf(b) == <<2000 + FromBcd(b[6]), FromBcd(b[5]), FromBcd(b[4]),
               FromBcd(b[3] % 64), FromBcd(b[2]), FromBcd(b[1])>>
ValidTimeBytes(b) == /\ Len(b) = 6
                     /\ IsBcd(b[1]) /\ IsBcd(b[2]) /\ IsBcd(b[3] % 64)
                     /\ IsBcd(b[4]) /\ IsBcd(b[5]) /\ IsBcd(b[6])
                     /\ IsTime(TimeOf(b))
DstOf(b) == b[3] \div 128
DstSupportedOf(b) == (b[3] \div 64) % 2

\* Days since 2000-01-01 to a date, counting years in cycles of 4 from 2000;
\* 2100 is not a leap year.
DaysBeforeYear(y) == LET k == y - 2000 IN
   365 * k + ((k + 3) \div 4) - (IF y > 2100 THEN 1 ELSE 0)
RECURSIVE MonthOf(_, _, _)
MonthOf(y, m, d) == IF d < DaysIn(y, m) THEN <<m, d + 1>> ELSE MonthOf(y, m + 1, d - DaysIn(y, m))
DateOf(days) ==
  LET guess == 2000 + (days \div 366)
      y == CHOOSE x \in guess..(guess + 1) :
              DaysBeforeYear(x) <= days /\ days < DaysBeforeYear(x + 1)
  IN <<y>> \o MonthOf(y, 1, days - DaysBeforeYear(y))

\* The time a (canonical or not) little-endian number of seconds stands for.
TimeOfSeconds(d) ==
  LET x == DivMod(d, 86400)
      days == LEVal(x.q)
  IN DateOf(days) \o <<x.r \div 3600, (x.r % 3600) \div 60, x.r % 60>>
=============================================================================
