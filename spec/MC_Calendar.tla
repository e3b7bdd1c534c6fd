----------------------------- MODULE MC_Calendar -----------------------------
(* The calendar of the specification against a walk through it, day by day: *)
(* the next day is the next number of the month, else the first of the next *)
(* month, else of the next year.  And the laws of date arithmetic (C06,     *)
(* C20) between the day and others around it.                               *)
EXTENDS Calendar
CONSTANTS Starts,    \* years to start from
          Days       \* days to walk from each
Shifts == {-25, -12, -1, 0, 1, 2, 11, 13}     \* months to move by
VARIABLES ymd, ord, wd, left

NextDay(t) ==
  LET y == t[1]  m == t[2]  d == t[3]
      last == CASE m \in {4, 6, 9, 11} -> 30
                [] m = 2 -> IF y % 400 = 0 \/ (y % 4 = 0 /\ y % 100 # 0) THEN 29 ELSE 28
                [] OTHER -> 31
  IN IF d < last THEN <<y, m, d + 1>> ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>

Init == \E y \in Starts : ymd = <<y, 1, 1>> /\ ord = Ord(y, 1, 1) /\ wd = Weekday(ord) /\ left = Days
Next ==
  /\ left > 0
  /\ NextDay(ymd)[1] <= MAXYEAR
  /\ ymd' = NextDay(ymd) /\ ord' = ord + 1 /\ wd' = (wd % 7) + 1 /\ left' = left - 1
Spec == Init /\ [][Next]_<<ymd, ord, wd, left>>

Agrees == Ord(ymd[1], ymd[2], ymd[3]) = ord /\ YMD(ord) = ymd /\ Weekday(ord) = wd /\ ValidYMD(ymd[1], ymd[2], ymd[3])
\* the lengths of months, and what isn't a date
Lengths ==
  LET y == ymd[1]  m == ymd[2]  n == DaysInMonth(y, m)
  IN /\ (NextDay(ymd)[3] = 1 <=> ymd[3] = n)
     /\ ~ValidYMD(y, m, 0) /\ ~ValidYMD(y, m, n + 1) /\ ~ValidYMD(y, m, -1) /\ ValidYMD(y, m, n)
     /\ ~ValidYMD(y, 0, ymd[3]) /\ ~ValidYMD(y, 13, ymd[3])
     /\ ~ValidYMD(0, m, ymd[3]) /\ ~ValidYMD(10000, m, ymd[3])
\* 0001-01-01 and 2000-01-01 were a Monday and a Saturday
Anchors == (ymd = <<1, 1, 1>> => ord = 1 /\ wd = 1) /\ (ymd = <<2000, 1, 1>> => wd = 6) /\ (ymd = <<9999, 12, 31>> => ord = MAXORD)

MonthLaws ==
  \A k \in Shifts :
    LET a == AddMonths(ymd, k)
    IN IF a = <<>> THEN ymd[1] * 12 + ymd[2] - 1 + k \notin 12..(9999 * 12 + 11)
       ELSE /\ ValidYMD(a[1], a[2], a[3])
            /\ a[1] * 12 + a[2] = ymd[1] * 12 + ymd[2] + k
            /\ a[3] <= ymd[3]
            /\ (a[3] < ymd[3] => a[3] = DaysInMonth(a[1], a[2]))
DiffLaws ==
  \A k \in Shifts : \A j \in {-29, -1, 0, 1, 30} :
    LET o == ord + k * 30 + j
        b == YMD(o)
        r == DateDiff(b, ymd)
    IN ValidOrd(o) =>
         /\ ShiftDate(ymd, r[1], r[2]) = b                      \* adding it gives the other date
         /\ (o >= ord => r[1] >= 0 /\ r[2] >= 0)                \* one sign
         /\ (o <= ord => r[1] <= 0 /\ r[2] <= 0)
         /\ LET n == AddMonths(ymd, r[1] + (IF o >= ord THEN 1 ELSE -1))   \* no further month fits
            IN o # ord /\ n # <<>> =>
                 IF o > ord THEN Ord(n[1], n[2], n[3]) > o ELSE Ord(n[1], n[2], n[3]) < o
=============================================================================
