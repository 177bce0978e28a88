----------------------------- MODULE MCCalendar -----------------------------
(* The calendar itself, explored day by day from 1970 to 2262 (the end of    *)
(* what the clock can represent): walking one day forward is the calendar's  *)
(* successor, the number of the day is recovered from its fields, ISO weeks  *)
(* progress, daylight saving time switches exactly twice a year.             *)
EXTENDS Calendar, TLC

CONSTANTS First, Last, Step

VARIABLES day

Zone == [off |-> -18000, name |-> B("EST"), dst |-> TRUE, doff |-> -14400, dname |-> B("EDT"),
         from |-> [m |-> 3, w |-> 2, d |-> 0, t |-> 7200], to |-> [m |-> 11, w |-> 1, d |-> 0, t |-> 7200]]
South == [off |-> 36000, name |-> B("AEST"), dst |-> TRUE, doff |-> 39600, dname |-> B("AEDT"),
          from |-> [m |-> 10, w |-> 1, d |-> 0, t |-> 7200], to |-> [m |-> 4, w |-> 1, d |-> 0, t |-> 10800]]

Init == day \in {First + k * Step : k \in 0..((Last - First) \div Step)}
Next == day' = day + 1 /\ day % Step # Step - 1 /\ day < Last
Spec == Init /\ [][Next]_day

Succ(F, G) ==
  /\ G.wday = (F.wday + 1) % 7
  /\ \/ /\ G.y = F.y /\ G.yday = F.yday + 1
        /\ \/ (G.mon = F.mon /\ G.mday = F.mday + 1)
           \/ (G.mon = F.mon + 1 /\ G.mday = 1 /\ F.mday = MonthDays(F.y)[F.mon])
     \/ /\ G.y = F.y + 1 /\ G.yday = 0 /\ F.yday = YearDays(F.y) - 1
        /\ F.mon = 12 /\ F.mday = 31 /\ G.mon = 1 /\ G.mday = 1

Back(F) == Day(F.y, F.mon, (F.mday - 1) \div 7 + 1, F.wday)

Steps == Succ(Fields(day, 0), Fields(day + 1, 0))
Inverse == Back(Fields(day, 86399)) = day
Weeks == LET a == Iso(day) b == Iso(day + 1) IN
         IF (day + 1 + 3) % 7 = 0 THEN (b.y = a.y /\ b.w = a.w + 1) \/ (b.y = a.y + 1 /\ b.w = 1 /\ a.w \in {52, 53}) ELSE a = b
(* In either hemisphere the offset changes only at the hour and day of a rule. *)
Turns(z) == LET a == InSummer(z, day, 0) b == InSummer(z, day + 1, 0) F == Fields(day, 0) IN
            a # b => (b /\ F.mon = z.from.m) \/ (~b /\ F.mon = z.to.m) \/ F.mday >= 28
Summer == Turns(Zone) /\ Turns(South)
Anchors == day = 0 => Fields(0, 0) = [y |-> 1970, yday |-> 0, mon |-> 1, mday |-> 1, wday |-> 4, h |-> 0, m |-> 0, s |-> 0]
=============================================================================
