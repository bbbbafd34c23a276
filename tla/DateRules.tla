----------------------------- MODULE DateRules -----------------------------
(***************************************************************************)
(* Date-valued fields and the verdicts that compare their instants.        *)
(* ls: the header lines; st: the message's start time, 0 when unknown.     *)
(* A zero instant counts as unknown, as in the implementation's contract.  *)
(***************************************************************************)
EXTENDS Dates

\* a single-valued date field: the first line decides
FirstDate(ls, name) ==
  LET occ == LinesOf(ls, name) IN
  IF occ = <<>> THEN [ok |-> FALSE, obs |-> FALSE, days |-> 0, secs |-> 0] ELSE DateVal(occ[1][2])
\* Age: a non-negative integer, else unusable
AgeValue(ls) ==
  LET occ == LinesOf(ls, "age") IN
  IF occ = <<>> THEN 0
  ELSE LET r == IntRec(Strip(occ[1][2])) IN IF ~r.ok \/ r.neg THEN 0 ELSE IntVal(r)

DateFieldsOf(kind) == IF kind = "response" THEN {"date", "expires", "last-modified", "sunset"} ELSE {"date"}
DateFieldVocab == {"BAD_DATE_SYNTAX", "DATE_OBSOLETE"}
DateFieldNotes(ls, kind) ==
  Cat([k \in 1..4 |->
    LET f == <<"date", "expires", "last-modified", "sunset">>[k]
        dv == FirstDate(ls, f) IN
    IF f \notin DateFieldsOf(kind) \/ ~Present(ls, f) THEN <<>>
    ELSE IF ~dv.ok THEN <<"BAD_DATE_SYNTAX@field-" \o f>>
    ELSE One(dv.obs, "DATE_OBSOLETE@field-" \o f)])
DateParsed(ls, f) == LET dv == FirstDate(ls, f) IN IF dv.ok THEN EpochText(dv) ELSE "None"

\* how much later one instant is than another, saturated at Cap
Diff(a, b) == LET dd == a.days - b.days IN
              IF dd > 20000 THEN Cap ELSE IF dd < 0 - 20000 THEN 0 - Cap ELSE dd * 86400 + a.secs - b.secs
At0(t) == [ok |-> TRUE, days |-> t \div 86400, secs |-> t % 86400]       \* of a start time
SatAdd(a, b) == IF a > 0 /\ b > Cap - a THEN Cap ELSE a + b
Usable(dv) == dv.ok /\ ~(dv.days = 0 /\ dv.secs = 0)

MaxSkew == 5
ClockVocab == {"DATE_CORRECT", "DATE_INCORRECT", "AGE_PENALTY"}
\* the server's clock, against a response's start time: Date plus Age
ClockVerdict(ls, st) ==
  LET dv == FirstDate(ls, "date") age == AgeValue(ls) IN
  IF st = 0 \/ ~Usable(dv) THEN [n |-> <<>>, skew |-> 0]
  ELSE LET ahead == Diff(dv, At0(st))
           skew == SatAdd(age, ahead)
       IN [n |-> IF age > MaxSkew /\ ahead > 0 - MaxSkew THEN <<"AGE_PENALTY@field-age field-date">>  \* Date is fresher than Age says
                 ELSE IF skew > MaxSkew \/ skew < 0 - MaxSkew THEN <<"DATE_INCORRECT@field-date">>
                 ELSE <<"DATE_CORRECT@field-date">>,
           skew |-> skew]
SkewText(skew) == Duration(skew) \o (IF skew > 0 THEN " ahead" ELSE " behind")

LmVocab == {"LM_FUTURE", "LM_PRESENT"}
\* the time Last-Modified is compared with: Date, else the start time
LmBase(ls, st) == LET d == FirstDate(ls, "date") IN IF Usable(d) THEN [ok |-> TRUE, d |-> d] ELSE [ok |-> st # 0, d |-> At0(st)]
LmNotes(ls, st) ==
  LET lm == FirstDate(ls, "last-modified") base == LmBase(ls, st) IN
  IF ~Usable(lm) \/ ~base.ok THEN <<>>
  ELSE IF Diff(lm, base.d) > 0 THEN <<"LM_FUTURE@field-last-modified">> ELSE <<"LM_PRESENT@field-last-modified">>
LmAge(ls, st) == Diff(LmBase(ls, st).d, FirstDate(ls, "last-modified"))
SunsetVocab == {"SUNSET_PAST"}
SunsetNotes(ls, st) == LET s == FirstDate(ls, "sunset") IN
                       One(st # 0 /\ Usable(s) /\ Diff(s, At0(st)) < 0, "SUNSET_PAST@field-sunset")
=============================================================================
