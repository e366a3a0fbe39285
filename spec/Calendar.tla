----------------------------- MODULE Calendar ------------------------------
(***************************************************************************)
(* UTC instants as <<day since 1970-01-01, second of the day, microsecond>>*)
(***************************************************************************)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 /\ IsLeap(y) THEN 29
                   ELSE <<31,28,31,30,31,30,31,31,30,31,30,31>>[m]
YearDays(y) == IF IsLeap(y) THEN 366 ELSE 365
\* days before January 1 of year y, counted from 1970-01-01
YearStart(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 492)
                - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
MonthStart(y, m) == <<0,31,59,90,120,151,181,212,243,273,304,334>>[m]
                    + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
DayNumber(y, m, d) == YearStart(y) + MonthStart(y, m) + d - 1
DayNumberJ(y, doy) == YearStart(y) + doy - 1
Clock(h, m, s) == 3600 * h + 60 * m + s
TLt(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
\* a and b differ by at most n microseconds (n < 10^6)
TNear(a, b, n) ==
  /\ a[1] - b[1] \in -1..1
  /\ LET ds == 86400 * (a[1] - b[1]) + a[2] - b[2]
     IN ds \in -1..1 /\ 1000000 * ds + a[3] - b[3] \in -n..n
=============================================================================
