------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar, years 1 to 9999; a day is also given   *)
(* by its ordinal (1 = 0001-01-01).                                         *)
EXTENDS Exact

MINYEAR == 1
MAXYEAR == 9999
MAXORD == 3652059

IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLens == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysInMonth(y, m) == IF m = 2 /\ IsLeap(y) THEN 29 ELSE MonthLens[m]
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(y, m) == CumDays[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
DaysBeforeYear(y) ==
  LET p == y - 1 IN p * 365 + p \div 4 - p \div 100 + p \div 400

ValidYMD(y, m, d) ==
  /\ y \in MINYEAR..MAXYEAR
  /\ m \in 1..12
  /\ d >= 1
  /\ d <= DaysInMonth(y, m)

Ord(y, m, d) == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d

\* the date of an ordinal, for any year
YMD(ord) ==
  LET n0 == ord - 1
      n400 == n0 \div 146097   r400 == n0 % 146097
      n100 == Min2(3, r400 \div 36524)   r100 == r400 - n100 * 36524
      n4 == r100 \div 1461   r4 == r100 % 1461
      n1 == Min2(3, r4 \div 365)   r1 == r4 - n1 * 365     \* day of year from 0
      y == n400 * 400 + n100 * 100 + n4 * 4 + n1 + 1
      m == CHOOSE k \in 1..12 :
             /\ DaysBeforeMonth(y, k) <= r1
             /\ k = 12 \/ r1 < DaysBeforeMonth(y, k + 1)
  IN <<y, m, r1 - DaysBeforeMonth(y, m) + 1>>

ValidOrd(ord) == ord >= 1 /\ ord <= MAXORD

\* Monday = 1 .. Sunday = 7
Weekday(ord) == ((ord - 1) % 7) + 1

----------------------------------------------------------------------------
(* Month arithmetic on <<y, m, d>>: move the month, clamp the day.          *)
(* <<>> if the year gets out of range.                                      *)
AddMonths(ymd, k) ==
  LET mi == ymd[1] * 12 + (ymd[2] - 1) + k
      y == mi \div 12   m == (mi % 12) + 1
  IN IF y < MINYEAR \/ y > MAXYEAR THEN <<>>
     ELSE <<y, m, Min2(ymd[3], DaysInMonth(y, m))>>

\* <<>> if out of range
AddDays(ymd, k) ==
  LET o == Ord(ymd[1], ymd[2], ymd[3]) + k
  IN IF ValidOrd(o) THEN YMD(o) ELSE <<>>

\* months first (with clamping), then days
ShiftDate(ymd, months, days) ==
  LET a == AddMonths(ymd, months) IN IF a = <<>> THEN <<>> ELSE AddDays(a, days)

\* The difference a - b as <<months, days>>, of one sign, such that adding
\* it to b gives a, with as many months as possible
DateDiff(a, b) ==
  LET oa == Ord(a[1], a[2], a[3])   ob == Ord(b[1], b[2], b[3])
      m0 == (a[1] - b[1]) * 12 + (a[2] - b[2])
      At0(k) == LET s == AddMonths(b, k)
                IN IF s = <<>> THEN <<>> ELSE <<oa - Ord(s[1], s[2], s[3])>>
      Fits(k) == LET r == At0(k)
                 IN r # <<>> /\ (IF oa >= ob THEN k >= 0 /\ r[1] >= 0 ELSE k <= 0 /\ r[1] <= 0)
      Cands == {k \in {m0 - 1, m0, m0 + 1} : Fits(k)}
      best == IF oa >= ob
              THEN CHOOSE k \in Cands : \A j \in Cands : j <= k
              ELSE CHOOSE k \in Cands : \A j \in Cands : j >= k
  IN <<best, At0(best)[1]>>
=============================================================================
