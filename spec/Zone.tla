-------------------------------- MODULE Zone --------------------------------
(* Timezones as the source of UTC offsets.  A zone is a record              *)
(*   codes  its name as a sequence of character codes                       *)
(*   first  offset (seconds) before the first transition                    *)
(*   trans  sequence of <<day ordinal, second of day, new offset>> (UTC)    *)
(*   rule   <<>> or <<std, dst, M1, W1, D1, T1, M2, W2, D2, T2>>: the       *)
(*          yearly rule in force after the last transition                  *)
(* A local or UTC second is <<day ordinal, second of day>>.                 *)
EXTENDS Calendar, ZoneTable


Sec(d, s) == <<d + s \div DAY, s % DAY>>
SecAdd(t, k) == Sec(t[1], t[2] + k)
SecLT(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SecLE(a, b) == ~SecLT(b, a)
SecDiff(a, b) == (a[1] - b[1]) * DAY + (a[2] - b[2])   \* close moments only

\* day ordinal of rule day M.W.D (D: 0 = Sunday) in year y
RuleDay(y, m, w, d) ==
  LET first == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + 1
      dow1 == Weekday(first) % 7
      day1 == first + ((d - dow1) % 7)
      dd == day1 + (w - 1) * 7
      last == first + DaysInMonth(y, m) - 1
  IN IF dd > last THEN dd - 7 ELSE dd

\* the two transitions of a rule in year y: <<UTC second, new offset>>
RuleStart(r, y) == Sec(RuleDay(y, r[3], r[4], r[5]), r[6] - r[1])
RuleEnd(r, y) == Sec(RuleDay(y, r[7], r[8], r[9]), r[10] - r[2])

RuleOffset(r, t) ==
  LET y == YMD(t[1])[1]
      s == RuleStart(r, y)  e == RuleEnd(r, y)
  IN IF SecLT(s, e)
     THEN IF SecLE(s, t) /\ SecLT(t, e) THEN r[2] ELSE r[1]
     ELSE IF SecLE(e, t) /\ SecLT(t, s) THEN r[1] ELSE r[2]

RECURSIVE LastAtOrBefore(_, _, _, _)
\* largest i in lo..hi with trans[i] <= t, given trans[lo] <= t (or lo = 0)
LastAtOrBefore(tr, t, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF SecLE(<<tr[mid][1], tr[mid][2]>>, t)
          THEN LastAtOrBefore(tr, t, mid, hi)
          ELSE LastAtOrBefore(tr, t, lo, mid - 1)

\* the UTC offset in force at UTC second t
OffsetIn(zone, t) ==
  LET n == Len(zone.trans)
      i == LastAtOrBefore(zone.trans, t, 0, n)
  IN IF i = n /\ zone.rule # <<>> THEN RuleOffset(zone.rule, t)
     ELSE IF i = 0 THEN zone.first
     ELSE zone.trans[i][3]

OffsetAt(z, t) == OffsetIn(ZoneData[z], t)

----------------------------------------------------------------------------
(* A local second L in zone z occurs at exactly those UTC seconds u with    *)
(* u + OffsetAt(z, u) = L.  Offsets change at most by less than a day, so   *)
(* only those in force within a day of L come into question; changes that   *)
(* follow each other within two days don't occur (asked of the table).      *)
ASSUME \A z \in DOMAIN ZoneData :
  LET tr == ZoneData[z].trans
  IN \A i \in 2..Len(tr) : SecLT(SecAdd(<<tr[i - 1][1], tr[i - 1][2]>>, 2 * DAY - 1), <<tr[i][1], tr[i][2]>>)
Offsets(z, L) == {OffsetAt(z, SecAdd(L, -DAY)), OffsetAt(z, L), OffsetAt(z, SecAdd(L, DAY))}
ValidOffsets(z, L) == {o \in Offsets(z, L) : OffsetAt(z, SecAdd(L, -o)) = o}

\* the offsets before and after the gap that local second L is in
GapOffsets(z, L) ==
  CHOOSE p \in Offsets(z, L) \X Offsets(z, L) :
    /\ p[1] < p[2]
    /\ OffsetAt(z, SecAdd(L, -p[2])) = p[1]
    /\ OffsetAt(z, SecAdd(L, -p[1])) = p[2]

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* How L resolves: <<kind, offset1, offset2>>, where the moment is L - offset
\* ("gap": the moment L - offset1 is shown with offset2, and vice versa)
Resolve(z, L) ==
  LET V == ValidOffsets(z, L)
  IN IF V = {} THEN LET g == GapOffsets(z, L) IN <<"gap", g[1], g[2]>>
     ELSE IF \E a, b \in V : a # b THEN <<"fold", MaxOf(V), MinOf(V)>>
     ELSE LET o == CHOOSE o \in V : TRUE IN <<"one", o, o>>

\* The offset to subtract from L to get the moment.
\* dis: "compatible", "earlier", "later"; prev: offset to keep if possible
UseDis(r, dis) ==
  CASE r[1] = "one" -> r[2]
    [] r[1] = "fold" -> IF dis = "later" THEN r[3] ELSE r[2]
    [] r[1] = "gap" -> IF dis = "earlier" THEN r[3] ELSE r[2]
\* keeping the offset in a gap: the moment L - post is shown with offset pre
UsePrev(r, prev) ==
  CASE r[1] = "one" -> r[2]
    [] r[1] = "fold" -> IF prev = r[3] THEN r[3] ELSE r[2]
    [] r[1] = "gap" -> IF prev = r[2] THEN r[3] ELSE r[2]


\* the moment at which the offset changes, between a (before) and b (after)
RECURSIVE ChangeAt(_, _, _)
ChangeAt(z, a, k) ==   \* the change is in a+1 .. a+k seconds, offset o before
  IF k = 1 THEN SecAdd(a, 1)
  ELSE LET h == k \div 2
       IN IF OffsetAt(z, SecAdd(a, h)) = OffsetAt(z, a)
          THEN ChangeAt(z, SecAdd(a, h), k - h) ELSE ChangeAt(z, a, h)

\* first moment of the day with ordinal d: midnight (its first occurrence),
\* or the end of the gap that midnight is in
StartOfDay(z, d) ==
  LET r == Resolve(z, <<d, 0>>)
      a == SecAdd(<<d, 0>>, -r[3])
  IN IF r[1] = "gap" THEN ChangeAt(z, a, r[3] - r[2])
     ELSE SecAdd(<<d, 0>>, -r[2])

\* (the code takes the moment that midnight has with the offset before the gap,
\*  which differs if the gap starts before midnight: a known deviation)
StartOfDayCompat(z, d) ==
  LET r == Resolve(z, <<d, 0>>) IN SecAdd(<<d, 0>>, -r[2])
DayStart(z, d, dev) == IF dev THEN StartOfDayCompat(z, d) ELSE StartOfDay(z, d)
=============================================================================
