------------------------------- MODULE MC_Round ------------------------------
(* Rounding: the two definitions (of spans, with limb numbers; of times of  *)
(* the day, with native ones) agree; the result is a multiple, the nearest  *)
(* as the mode says, and rounding it again changes nothing (C13).           *)
EXTENDS Ops
CONSTANT Deep
Secs == IF ~Deep THEN {0, 1, 30, 1801, 5400, 43200, 86399} ELSE
   {0, 1, 2, 29, 30, 31, 59, 60, 89, 90, 1799, 1800, 1801, 3599, 3600, 5400, 41400, 43199, 43200, 43201, 84600, 86398, 86399}
Ns == IF ~Deep THEN {0, 1, 500, 1500, 500000, 499999999, 500000000, 999999999} ELSE
   {0, 1, 2, 499, 500, 501, 999, 1000, 1499, 1500, 499999, 500000, 500001, 1500000, 499999999, 500000000, 500000001, 999499999, 999999500, 999999999}
Incs(u) == {i \in IF ~Deep THEN {1, 2, 5, 15, 1000} ELSE {1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 24, 25, 30, 40, 50, 60, 100, 125, 200, 250, 500, 1000} : ValidIncrement(u, i, FALSE)}
VARIABLES s, ns, u, inc, mode
vs == <<s, ns, u, inc, mode>>
Init == s \in Secs /\ ns = 0 /\ u = "hour" /\ inc = 1 /\ mode = "floor"
Next == u = "hour" /\ inc = 1 /\ mode = "floor" /\ ns = 0
        /\ u' \in Units \ {"day"} /\ inc' \in Incs(u') /\ mode' \in Modes /\ ns' \in Ns /\ UNCHANGED s
Spec == Init /\ [][Next]_vs

sp == <<0, s, ns>>
R(m) == RoundDayTime(s, ns, u, inc, m)
step == BMul(SpanToBig(<<0, UnitSpan(u)[1], UnitSpan(u)[2]>>), Big(inc))
Agree == RoundSpan(sp, u, inc, mode) = R(mode)
Multiple == BFloorDiv(SpanToBig(R(mode)), step)[2] = BZero
Near == BCmp(BAbs(BSub(SpanToBig(R(mode)), SpanToBig(sp))), step) < 0
Between == SpanLE(R("floor"), sp) /\ SpanLE(sp, R("ceil")) /\ R(mode) \in {R("floor"), R("ceil")}
\* of the two, the nearer one, and with a tie as the mode says
Nearest ==
  LET lo == SpanToBig(SpanSub(sp, R("floor")))  hi == SpanToBig(SpanSub(R("ceil"), sp))
      c == BCmp(lo, hi)
      q == BFloorDiv(SpanToBig(R("floor")), step)[1]
      even == q = BZero \/ q[2][1] % 2 = 0
  IN mode \in {"half_ceil", "half_floor", "half_even"} /\ R("floor") # R("ceil") =>
       R(mode) = (IF c < 0 THEN R("floor") ELSE IF c > 0 THEN R("ceil")
                  ELSE CASE mode = "half_ceil" -> R("ceil") [] mode = "half_floor" -> R("floor")
                         [] OTHER -> IF even THEN R("floor") ELSE R("ceil"))
Again == RoundSpan(R(mode), u, inc, mode) = R(mode)
\* below zero: the mirror image, with ceil and floor exchanged
Mirror ==
  LET other == CASE mode = "ceil" -> "floor" [] mode = "floor" -> "ceil" [] mode = "half_ceil" -> "half_floor"
                 [] mode = "half_floor" -> "half_ceil" [] OTHER -> "half_even"
  IN RoundSpan(SpanNeg(sp), u, inc, mode) = SpanNeg(RoundSpan(sp, u, inc, other))
\* the units: each is so many of the next smaller one; an increment is allowed when it
\* is at most 1000 and fits a whole number of times into the next bigger one
Chain == <<"nanosecond", "microsecond", "millisecond", "second", "minute", "hour", "day">>
NanosIn(x) == SpanToBig(<<0, UnitSpan(x)[1], UnitSpan(x)[2]>>)
Increments ==
  /\ NanosIn("nanosecond") = Big(1) /\ NanosIn("day") = BDAYNS
  /\ NanosIn("hour") = BHOUR /\ NanosIn("minute") = BMINUTE /\ NanosIn("second") = BGIGA
  /\ \A k \in 1..6 : NanosIn(Chain[k + 1]) = BMul(NanosIn(Chain[k]), Big(UnitMax(Chain[k])))
  /\ u = "hour" /\ inc = 1 /\ mode = "floor" /\ ns = 0 =>
       \A x \in Units, any \in BOOLEAN, i \in (-3..70) \cup {100, 120, 125, 144, 200, 250, 333, 334, 500, 999, 1000, 1001, 1200, 2000, 3600, 86400} :
         ValidIncrement(x, i, any) =
           (i >= 1 /\ i <= 1000 /\
            IF x = "day" THEN i = 1
            ELSE IF x = "hour" /\ any THEN TRUE
            ELSE \E n \in 1..1000 : n * i = (CASE x = "hour" -> 24 [] x \in {"minute", "second"} -> 60 [] OTHER -> 1000))
=============================================================================
