------------------------------- MODULE Dates -------------------------------
(***************************************************************************)
(* HTTP dates (RFC 9110, 5.6.7) and the instants they denote.              *)
(***************************************************************************)
EXTENDS Fields

DayName == A([k \in 1..7 |-> L(<<"mon", "tue", "wed", "thu", "fri", "sat", "sun">>[k])])
DayNameL == A([k \in 1..7 |-> L(<<"monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday">>[k])])
MonthNames == <<"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec">>
Month == A([k \in 1..12 |-> L(MonthNames[k])])
MonthNo == [m \in SeqSet(MonthNames) |-> CHOOSE k \in 1..12 : MonthNames[k] = m]
D1 == C(Digit)
D2 == N(D1, 2)
D4 == N(D1, 4)
SP == C({" "})
Tod == S(<<D2, L(":"), D2, L(":"), D2>>)
ImfFixdate == S(<<DayName, L(","), SP, D2, SP, Month, SP, D4, SP, Tod, SP, L("gmt")>>)
Rfc850 == S(<<DayNameL, L(","), SP, D2, L("-"), Month, L("-"), D2, SP, Tod, SP, L("gmt")>>)
Asctime == S(<<DayName, SP, Month, SP, A(<<D2, S(<<SP, D1>>)>>), SP, Tod, SP, D4>>)
ObsDate == A(<<Rfc850, Asctime>>)
HttpDate == A(<<ImfFixdate, ObsDate>>)

\* days from 1970-01-01 to the first of a month (proleptic Gregorian)
DaysTo(y, m) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468

\* calendar fields of a matching date text
DateParts(s) ==
  IF FullMatch(ImfFixdate, s) THEN
    [y |-> Num(SubSeq(s, 13, 16)), mo |-> MonthNo[Lower(SubSeq(s, 9, 11))], d |-> Num(SubSeq(s, 6, 7)),
     h |-> Num(SubSeq(s, 18, 19)), mi |-> Num(SubSeq(s, 21, 22)), s |-> Num(SubSeq(s, 24, 25))]
  ELSE IF FullMatch(Asctime, s) THEN
    [y |-> Num(SubSeq(s, 21, 24)), mo |-> MonthNo[Lower(SubSeq(s, 5, 7))],
     d |-> Num(LTrimSet(SubSeq(s, 9, 10), {" "})),
     h |-> Num(SubSeq(s, 12, 13)), mi |-> Num(SubSeq(s, 15, 16)), s |-> Num(SubSeq(s, 18, 19))]
  ELSE LET k == Find(s, {","}) IN
    [y |-> Num(SubSeq(s, k + 9, k + 10)), mo |-> MonthNo[Lower(SubSeq(s, k + 5, k + 7))],
     d |-> Num(SubSeq(s, k + 2, k + 3)),
     h |-> Num(SubSeq(s, k + 12, k + 13)), mi |-> Num(SubSeq(s, k + 15, k + 16)), s |-> Num(SubSeq(s, k + 18, k + 19))]
FullYear(y) == IF y >= 100 THEN y ELSE IF y > 68 THEN y + 1900 ELSE y + 2000

\* value of a date field: absent/invalid, or an instant as days and seconds
DateVal(v0) ==
  LET s == Strip(v0) IN
  IF ~FullMatch(HttpDate, s) THEN [ok |-> FALSE, obs |-> FALSE, days |-> 0, secs |-> 0]
  ELSE LET p == DateParts(s)
           raw == p.h * 3600 + p.mi * 60 + p.s
           dd == DaysTo(FullYear(p.y), p.mo) + p.d - 1 + raw \div 86400
       IN [ok |-> TRUE, obs |-> FullMatch(ObsDate, s), days |-> dd, secs |-> raw % 86400]
\* instants within the 32-bit range TLC can hold
InRange(dv) == dv.days > -24800 /\ dv.days < 24800
Epoch(dv) == dv.days * 86400 + dv.secs
\* exact text of the instant, for any year: 86400*days + secs in base 1000 limbs
EpochText(dv) ==
  IF InRange(dv) THEN "i" \o ToString(Epoch(dv))
  ELSE LET neg == dv.days < 0
           \* |days*86400 + secs| with 0 <= secs < 86400
           ad == IF neg THEN 0 - dv.days ELSE dv.days
           lo0 == (ad % 1000) * 86400 + (IF neg THEN 0 - dv.secs ELSE dv.secs)   \* may be negative
           hi0 == (ad \div 1000) * 86400                                      \* thousands
           lo == lo0 % 1000000
           hi == hi0 * 1 + 0
           \* total = hi*1000 + lo0 ; write as H*1000000 + L
           t3 == hi % 1000
           H0 == hi \div 1000
           L0 == t3 * 1000 + lo0
           L1 == L0 % 1000000
           H1 == H0 + (L0 \div 1000000)
           pad == ToString(1000000 + L1)
       IN "i" \o (IF neg THEN "-" ELSE "") \o ToString(H1) \o SubSeq(pad, 2, 7)
=============================================================================
