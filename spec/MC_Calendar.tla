----------------------------- MODULE MC_Calendar ----------------------------
(* A calendar that ticks day by day under the Gregorian rules agrees with   *)
(* the closed form of the day number (used for every time in the specs).    *)
EXTENDS Calendar
CONSTANTS FirstYear, LastYear
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
MInit == y = FirstYear /\ m = 1 /\ d = 1 /\ n = DayNumber(FirstYear, 1, 1)
MNext == /\ y <= LastYear /\ n' = n + 1
         /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
            ELSE /\ d' = 1
                 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Agrees == n = DayNumber(y, m, d) /\ n = DayNumberJ(y, MonthStart(y, m) + d)
Epoch == (y = 1970 /\ m = 1 /\ d = 1 => n = 0) /\ (y = 1899 /\ m = 12 /\ d = 31 => n = -25568)
         /\ (y = 2000 /\ m = 2 /\ d = 29 => n = 11016)
=============================================================================
