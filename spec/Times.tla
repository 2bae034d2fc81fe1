-------------------------------- MODULE Times --------------------------------
(* Points of time in the notations of the tool: civil date and time, packed    *)
(* decimal, texts, and file times (days and seconds since 1601 or 1970), in a  *)
(* zone with a fixed offset or with summer time.                               *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Years, Moments, Zones, Emit
\* Zones: [off |-> minutes east of Greenwich, dst |-> additional minutes between April 1 and October 1]

VARIABLES c, z
vars == <<c, z>>

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE MonthDays(y)[m - 1] + Before(y, m - 1)
\* days since 0001-01-01
YearStart(y) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
Day(y, m, d) == YearStart(y) + Before(y, m) + d - 1
\* the reader: the year and month a day number lies in
YearOf(n) == CHOOSE y \in ((n \div 366) - 1)..((n \div 365) + 1) : y >= 1 /\ YearStart(y) <= n /\ n < YearStart(y + 1)
MonthOf(n) == LET y == YearOf(n) IN CHOOSE m \in 1..12 : Before(y, m) <= n - YearStart(y) /\ n - YearStart(y) < Before(y, m) + MonthDays(y)[m]
Seconds(t) == t[4] * 3600 + t[5] * 60 + t[6]

\* 1970 and later only: the rules of the zone are not meant for earlier dates
Summer(t) == z.dst # 0 /\ t[2] >= 4 /\ t[2] < 10
Offset(t) == 60 * (z.off + (IF Summer(t) THEN z.dst ELSE 0))
\* civil local time -> days and seconds of Greenwich time
Utc(t) == LET s == Seconds(t) - Offset(t)
              d == s \div 86400
          IN <<Day(t[1], t[2], t[3]) + d, s - 86400 * d>>
Two(n) == <<n \div 10, n % 10>>
Text14(t) == <<t[1] \div 1000, (t[1] \div 100) % 10, (t[1] \div 10) % 10, t[1] % 10>> \o Two(t[2]) \o Two(t[3]) \o Two(t[4]) \o Two(t[5]) \o Two(t[6])

Init == /\ c \in {<<y, m, d>> \o hms : y \in Years, m \in 1..12, d \in {1, 15, 28, 29, 30, 31}, hms \in Moments}
        /\ c[3] <= MonthDays(c[1])[c[2]]
        /\ z \in Zones
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

DayBack == LET n == Day(c[1], c[2], c[3]) IN YearOf(n) = c[1] /\ MonthOf(n) = c[2] /\ n - YearStart(c[1]) - Before(c[1], c[2]) + 1 = c[3]
\* going back from Greenwich time gives the civil time again
UtcBack == LET u == Utc(c)
               s == u[2] + Offset(c)
               d == s \div 86400
           IN u[1] + d = Day(c[1], c[2], c[3]) /\ s - 86400 * d = Seconds(c)
Epochs == Day(1601, 1, 1) = 584388 /\ Day(1970, 1, 1) = 719162
Record == Emit => PrintT(ToJson([c |-> c, z |-> z, digits |-> Text14(c), local |-> <<Day(c[1], c[2], c[3]), Seconds(c)>>, utc |-> Utc(c)]))
=============================================================================
