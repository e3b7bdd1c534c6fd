------------------------------- MODULE MC_Rule -------------------------------
(* Yearly rules of timezones, and tables of transitions: what offset is in  *)
(* force when (Zone.tla), against the calendar of Calendar.tla and against  *)
(* going through the table (C03, C04, C05).  The walk goes through years.   *)
EXTENDS Zone, Sequences, FiniteSets
CONSTANTS Years, Run   \* the years to start with, and where to stop

\* std dst  M.W.D/T of the start  M.W.D/T of the end; in order: the middle of
\* Europe, New York, Sydney, Dublin (winter time is the exception), Nuuk (an
\* hour before midnight), Gaza (50 hours after midnight), and one that changes
\* on the fifth Sunday of a month that may have only four
Rules == <<
  <<3600, 7200, 3, 5, 0, 7200, 10, 5, 0, 10800>>,
  <<-18000, -14400, 3, 2, 0, 7200, 11, 1, 0, 7200>>,
  <<36000, 39600, 10, 1, 0, 7200, 4, 1, 0, 10800>>,
  <<3600, 0, 10, 5, 0, 7200, 3, 5, 0, 3600>>,
  <<-7200, -3600, 3, 5, 0, -3600, 10, 5, 0, 0>>,
  <<7200, 10800, 3, 4, 4, 180000, 10, 4, 4, 180000>>,
  <<12600, 14401, 2, 5, 6, 86399, 9, 4, 3, 1>> >>
VARIABLES y, i
Init == y \in Years /\ i \in 1..Len(Rules)
Next == (y % Run) # 0 /\ y < 9998 /\ y' = y + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<y, i>>

R == Rules[i]
\* M.W.D says: in month M, weekday D, of those in the month the W-th, or the last
IsRuleDay(d, m, w, dow) ==
  LET ymd == YMD(d)
      same == {e \in 1..DaysInMonth(y, m) : Weekday(Ord(y, m, e)) % 7 = dow}
  IN /\ ymd[1] = y /\ ymd[2] = m
     /\ Weekday(d) % 7 = dow
     /\ ymd[3] \in same
     /\ LET before == {e \in same : e < ymd[3]}  after == {e \in same : e > ymd[3]}
            Count(S) == IF S = {} THEN 0 ELSE FoldLeft(LAMBDA a, e : a + (IF e \in S THEN 1 ELSE 0), 0, [k \in 1..31 |-> k])
        IN IF w < 5 THEN Count(before) = w - 1 ELSE after = {}
Days ==
  /\ IsRuleDay(RuleDay(y, R[3], R[4], R[5]), R[3], R[4], R[5])
  /\ IsRuleDay(RuleDay(y, R[7], R[8], R[9]), R[7], R[8], R[9])
\* the clock shows the time of the rule when it changes
Clocks ==
  LET s == RuleStart(R, y)  e == RuleEnd(R, y)
  IN /\ SecAdd(s, R[1]) = Sec(RuleDay(y, R[3], R[4], R[5]), R[6])
     /\ SecAdd(e, R[2]) = Sec(RuleDay(y, R[7], R[8], R[9]), R[10])
     /\ s[2] \in 0..(DAY - 1) /\ e[2] \in 0..(DAY - 1)
\* both offsets are in force up to their last second and from their first
Changes ==
  LET s == RuleStart(R, y)  e == RuleEnd(R, y)
  IN /\ RuleOffset(R, s) = R[2] /\ RuleOffset(R, SecAdd(s, -1)) = R[1]
     /\ RuleOffset(R, e) = R[1] /\ RuleOffset(R, SecAdd(e, -1)) = R[2]
     \* and nowhere else: as it is on one side it stays
     /\ \A d \in {1, 3600, 86400, 864000, 8640000} :
          /\ RuleOffset(R, SecAdd(s, d)) = R[2] /\ RuleOffset(R, SecAdd(s, -d)) = R[1]
          /\ RuleOffset(R, SecAdd(e, d)) = R[1] /\ RuleOffset(R, SecAdd(e, -d)) = R[2]
Anchors ==
  y = 2000 =>
    /\ i = 1 => RuleStart(R, y) = <<Ord(2000, 3, 26), 3600>> /\ RuleEnd(R, y) = <<Ord(2000, 10, 29), 3600>>
    /\ i = 2 => RuleStart(R, y) = <<Ord(2000, 3, 12), 25200>> /\ RuleEnd(R, y) = <<Ord(2000, 11, 5), 21600>>
    /\ i = 3 => RuleStart(R, y) = <<Ord(2000, 9, 30), 57600>> /\ RuleEnd(R, y) = <<Ord(2000, 4, 1), 57600>>
    /\ i = 4 => RuleStart(R, y) = <<Ord(2000, 10, 29), 3600>> /\ RuleEnd(R, y) = <<Ord(2000, 3, 26), 3600>>
    /\ i = 5 => RuleStart(R, y) = <<Ord(2000, 3, 26), 3600>> /\ RuleEnd(R, y) = <<Ord(2000, 10, 29), 3600>>
    /\ i = 6 => RuleStart(R, y) = <<Ord(2000, 3, 25), 0>> /\ RuleEnd(R, y) = <<Ord(2000, 10, 27), 82800>>
    /\ i = 7 => RuleStart(R, y) = <<Ord(2000, 2, 26), 73799>> /\ RuleEnd(R, y) = <<Ord(2000, 9, 26), 72000>>

\* a table of transitions, and the rule after it
Early == <<Ord(y, 1, 15), 0>>
Table(r) == [codes |-> <<>>, first |-> 1, rule |-> r,
             trans |-> [k \in 1..7 |-> <<Early[1] + 9 * k, 1000 * k, 100 * k>>]]
Tables ==
  \A r \in {<<>>, R} :
    LET zone == Table(r)
        InForce(t) == LET before == {k \in 1..7 : SecLE(<<zone.trans[k][1], zone.trans[k][2]>>, t)}
                 IN IF before = {} THEN 1
                    ELSE IF 7 \in before /\ r # <<>> THEN RuleOffset(r, t)
                    ELSE 100 * Cardinality(before)
    IN \A k \in 1..7, d \in {-400000, -1, 0, 1, 3600, 400000} :
         LET t == SecAdd(<<zone.trans[k][1], zone.trans[k][2]>>, d)
         IN OffsetIn(zone, t) = InForce(t)
=============================================================================
