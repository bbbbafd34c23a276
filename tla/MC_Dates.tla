----------------------------- MODULE MC_Dates -----------------------------
(* The calendar, one day at a time: the reading of a date text must agree with counting days. *)
EXTENDS Dates
CONSTANTS Years, Length
VARIABLES y, mo, d, n, start     \* a day, and how many days after the start of the run it is
v == <<y, mo, d, n, start>>
Leap(a) == (a % 4 = 0 /\ a % 100 # 0) \/ a % 400 = 0
MonthLen(a, b) == IF b \in {4, 6, 9, 11} THEN 30 ELSE IF b # 2 THEN 31 ELSE IF Leap(a) THEN 29 ELSE 28
Init == \E a \in Years : y = a /\ mo = 1 /\ d = 1 /\ n = 0 /\ start = a
Next == /\ n < Length /\ n' = n + 1 /\ start' = start
        /\ IF d < MonthLen(y, mo) THEN d' = d + 1 /\ UNCHANGED <<y, mo>>
           ELSE /\ d' = 1
                /\ IF mo < 12 THEN mo' = mo + 1 /\ y' = y ELSE mo' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_v
Two(k) == IF k < 10 THEN "0" \o ToString(k) ELSE ToString(k)
Four(k) == IF k < 1000 THEN "0" \o ToString(k) ELSE ToString(k)
Abbr == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Wd == <<"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed">>
WdLong == <<"Thursday", "Friday", "Saturday", "Sunday", "Monday", "Tuesday", "Wednesday">>
Days == DaysTo(start, 1) + n
W == (Days % 7) + 1
Secs == (n * 7919) % 86400
TodOf == Two(Secs \div 3600) \o ":" \o Two((Secs \div 60) % 60) \o ":" \o Two(Secs % 60)
Imf == Wd[W] \o ", " \o Two(d) \o " " \o Abbr[mo] \o " " \o Four(y) \o " " \o TodOf \o " GMT"
R850 == WdLong[W] \o ", " \o Two(d) \o "-" \o Abbr[mo] \o "-" \o Two(y % 100) \o " " \o TodOf \o " GMT"
Asc == Wd[W] \o " " \o Abbr[mo] \o " " \o (IF d < 10 THEN " " ELSE "") \o ToString(d) \o " " \o TodOf \o " " \o Four(y)
Is(dv, old) == dv.ok /\ dv.obs = old /\ dv.days = Days /\ dv.secs = Secs
ReadsImf == Is(DateVal(Imf), FALSE)
ReadsAsc == Is(DateVal(Asc), TRUE)
Reads850 == LET dv == DateVal(R850) IN dv.ok /\ dv.obs /\ (y \in 1969..2068 => dv.days = Days /\ dv.secs = Secs)
EpochDay == (y = 1970 /\ mo = 1 /\ d = 1) => Days = 0
Emit == (d > 2 /\ d < 28 /\ n % 50 # 0) \/ PrintT("SCN " \o ToJson([imf |-> Imf, r850 |-> R850, asc |-> Asc]))
=============================================================================
