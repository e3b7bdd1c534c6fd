-------------------------------- MODULE Round --------------------------------
(* Rounding to multiples of an increment.                                   *)
EXTENDS Delta

Modes == {"ceil", "floor", "half_ceil", "half_floor", "half_even"}
UnitSpan(u) ==   \* as <<seconds, nanoseconds>>
  CASE u = "day" -> <<DAY, 0>>
    [] u = "hour" -> <<3600, 0>>
    [] u = "minute" -> <<60, 0>>
    [] u = "second" -> <<1, 0>>
    [] u = "millisecond" -> <<0, 1000000>>
    [] u = "microsecond" -> <<0, 1000>>
    [] u = "nanosecond" -> <<0, 1>>
Units == {"day", "hour", "minute", "second", "millisecond", "microsecond", "nanosecond"}
UnitMax(u) ==
  CASE u = "hour" -> 24
    [] u \in {"minute", "second"} -> 60
    [] u \in {"millisecond", "microsecond", "nanosecond"} -> 1000

\* is the increment valid?  anyHour: hours needn't divide the day
ValidIncrement(u, inc, anyHour) ==
  /\ inc >= 1
  /\ inc <= 1000
  /\ CASE u = "day" -> inc = 1
       [] u = "hour" /\ anyHour -> TRUE
       [] OTHER -> UnitMax(u) % inc = 0

\* Is a value r above a multiple rounded up, if the multiple's number is even
\* or odd and  cmp  tells how 2*r compares with the increment (r > 0)?
RoundsUp(mode, cmp, even) ==
  CASE mode = "floor" -> FALSE
    [] mode = "ceil" -> TRUE
    [] OTHER ->
         IF cmp # 0 THEN cmp > 0
         ELSE CASE mode = "half_floor" -> FALSE
                [] mode = "half_ceil" -> TRUE
                [] mode = "half_even" -> ~even

\* Round a span (from some zero) to a multiple of inc units.
RoundSpan(sp, u, inc, mode) ==
  LET step == BMul(SpanToBig(<<0, UnitSpan(u)[1], UnitSpan(u)[2]>>), Big(inc))
      qr == BFloorDiv(SpanToBig(sp), step)
      even == IF qr[1] = BZero THEN TRUE ELSE qr[1][2][1] % 2 = 0
      up == qr[2] # BZero /\ RoundsUp(mode, BCmp(BMul(Big(2), qr[2]), step), even)
      q == IF up THEN BAdd(qr[1], Big(1)) ELSE qr[1]
  IN BigToSpan(BMul(q, step))

----------------------------------------------------------------------------
(* The same for a time of day, without bigs: secs since midnight and ns.    *)
(* The result may be the next midnight, <<1, 0, 0>>.                        *)
RoundDayTime(secs, ns, u, inc, mode) ==
  LET us == UnitSpan(u)
  IN IF us[1] > 0
     THEN LET step == us[1] * inc
              q == secs \div step   r == secs % step
              cmp == SpanCmp(Span(0, 2 * r, 2 * ns), Span(0, step, 0))
              up == (r # 0 \/ ns # 0) /\ RoundsUp(mode, cmp, q % 2 = 0)
          IN Span(0, (IF up THEN q + 1 ELSE q) * step, 0)
     ELSE LET step == us[2] * inc     \* at most 10^9, and divides it
              q == ns \div step  r == ns % step
              \* parity of the multiple, counted from midnight
              even == ((secs % 2) * ((GIGA \div step) % 2) + q) % 2 = 0
              up == r # 0 /\ RoundsUp(mode, Sgn(r - (step - r)), even)
          IN Span(0, secs, (IF up THEN q + 1 ELSE q) * step)
=============================================================================
