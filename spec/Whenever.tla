------------------------------ MODULE Whenever ------------------------------
(* The library as a state machine.  Its state is what outlives a call:      *)
(*   sysTz   the timezone of the system                                     *)
(*   heap    the values made so far (they never change)                     *)
(*   clock   the time patches in force, innermost last                      *)
(* A call gets values (or handles of heap values) and gives a result.       *)
EXTENDS Ops, FiniteSets

VARIABLES sysTz, heap, clock
vars == <<sysTz, heap, clock>>

----------------------------------------------------------------------------
(* Calls: the results allowed for operation op with arguments a             *)
Results(op, a, sys) ==
  CASE op = "plus" -> Plus(a[1], a[2], sys)
    [] op = "minus" -> Minus(a[1], a[2], sys)
    [] op = "add" -> ShiftUnits(a[1], a[2].n, 1, a[3].z, BoolOf(a[4]), sys)
    [] op = "sub" -> ShiftUnits(a[1], a[2].n, -1, a[3].z, BoolOf(a[4]), sys)
    [] op = "addd" -> ShiftDelta(a[1], a[2], 1, a[3].z, BoolOf(a[4]), sys)
    [] op = "subd" -> ShiftDelta(a[1], a[2], -1, a[3].z, BoolOf(a[4]), sys)
    [] op = "get" -> Get(a[1].z, a[2])
    [] op = "cmp" -> Cmp(a[1], a[2])
    [] op = "new" -> New(a[1].z, a[2], a[3], a[4], sys)
    [] op = "difference" -> Difference(a[1], a[2], BoolOf(a[3]))
    [] op = "exact_eq" -> ExactEq(a[1], a[2])
    [] op = "start_of_day" -> StartOf(a[1], sys, FALSE)
    [] op = "day_length" -> LengthOf(a[1], sys, FALSE)
    [] op = "is_ambiguous" -> IsAmbiguous(a[1], sys)
    [] op = "round" -> Round(a[1], a[2].z, Increment(a[3]), a[4].z, BoolOf(a[5]), sys, FALSE)
    [] op = "replace" -> Replace(a[1], a[2].n, a[3].z, a[4], a[5].z, BoolOf(a[6]), sys)
    [] op = "replace_date" -> ReplaceDate(a[1], a[2], a[3].z, BoolOf(a[4]), sys)
    [] op = "replace_time" -> ReplaceTime(a[1], a[2], a[3].z, BoolOf(a[4]), sys)
    [] op = "to_tz" -> IF KnownZone(a[2].z) THEN {MkZoned(Moment(a[1]), a[2].z)} ELSE NoZone
    [] op = "to_fixed" ->
         IF a[2].t = "None" THEN {MkOffset(Moment(a[1]), IF a[1].t = "Instant" THEN 0 ELSE a[1].n[8])}
         ELSE AsType("Offset", Moment(a[1]), a[2], sys)
    [] op = "to_system" -> AsType("System", Moment(a[1]), None, sys)
    [] op = "assume_utc" -> {MkInstant(LocalSpan(a[1]))}
    [] op = "assume_fixed" -> {AssumeOffset(a[1], OffArg(a[2]))}
    [] op = "assume_tz" -> IF KnownZone(a[2].z) THEN Assume(a[1], "Zoned", a[2].z, a[3].z) ELSE NoZone
    [] op = "assume_system" -> Assume(a[1], "System", sys, a[2].z)
    [] op = "at" -> {V("Local", a[1].n \o a[2].n)}
    [] op = "on" -> {V("Local", a[2].n \o a[1].n)}
    [] op = "in_year" -> LET y == NatOf(a[2]) IN
         {IF y \in 1..9999 THEN MkDate(<<y, a[1].n[1], a[1].n[2]>>) ELSE ValueErr}
    [] op = "on_day" -> {MkDate(<<a[1].n[1], a[1].n[2], NatOf(a[2])>>)}
    [] op = "days_since" -> {Int32(OrdOf(a[1]) - OrdOf(a[2]))}
    [] op = "days_until" -> {Int32(OrdOf(a[2]) - OrdOf(a[1]))}
    [] op = "from_timestamp" -> FromTimestamp(a[1].z, a[2].z, a[3], a[4], BoolOf(a[5]), sys)
    [] op = "timestamp" -> Timestamp(a[1].z, a[2])
    [] op = "parse" -> ParseIso(a[1].z, a[2].n)
    [] op = "parse3339" -> IF a[1].z = "Instant" THEN ParseRfc3339Instant(a[2].n) ELSE ParseRfc3339Offset(a[2].n)
    [] op = "from_py" -> FromPy(a[1].z, a[2])
    [] op = "strptime" -> Strptime(a[1].z, a[2])
    [] op = "same" -> {a[1]}
    [] op = "unpickle" -> Unpickle(a[1].z, a[2].n, a[3].z, SubSeq(a, 4, Len(a)))
    [] op = "mul" -> {DeltaMul(a[1], BigOf(a[2]))}
    [] op = "floordiv" ->
         IF a[2].n = SpanZero THEN {Err("ZeroDivision")}
         ELSE {MkInt(BFloorDiv(SpanToBig(a[1].n), SpanToBig(a[2].n))[1])}
    [] op = "mod" ->
         IF a[2].n = SpanZero THEN {Err("ZeroDivision")}
         ELSE {V("TD", BigToSpan(BFloorDiv(SpanToBig(a[1].n), SpanToBig(a[2].n))[2]))}
    [] op = "const" -> Consts(a[1].z)
    [] op = "refused" -> {TypeErr, IgnoreDST}
    [] op = "invalid" -> {TypeErr, ValueErr}
    [] op = "immutable" -> {Err("Attribute"), TypeErr}

\* operations whose allowed results are given by a relation
Relational == {"in_unit", "truediv", "parse2822", "mulfloat"}
Related(op, a, r) ==
  CASE op = "in_unit" -> FloatClose(r, SpanToBig(a[2].n), TDUnit(a[1].z))
    [] op = "parse2822" -> Parse2822OK(a[1].z, a[2].n, r)
    [] op = "mulfloat" -> \* TimeDelta * float
         r = ValueErr \/ (r.t = "TD" /\ SpanClose(r.n, BMul(SpanToBig(a[1].n), FloatNum(a[2])), FloatDen(a[2])))
    [] op = "truediv" ->
         IF (a[2].t = "TD" /\ a[2].n = SpanZero) \/ (a[2].t # "TD" /\ Last(a[2].n) = 0) THEN r = Err("ZeroDivision")
         ELSE CASE a[2].t = "TD" -> FloatClose(r, SpanToBig(a[1].n), SpanToBig(a[2].n))
                [] a[2].t = "Int" -> r.t = "TD" /\ SpanClose(r.n, SpanToBig(a[1].n), BigOf(a[2]))
                [] a[2].t = "Float" -> r = ValueErr \/ (r.t = "TD" /\ SpanClose(r.n, BMul(SpanToBig(a[1].n), FloatDen(a[2])), FloatNum(a[2])))

Allowed(op, a, r, sys) ==
  IF op \in Relational THEN Related(op, a, r) ELSE r \in Results(op, a, sys)

\* results known to be wrong (see KNOWN_FINDINGS.txt): "" or the finding's id
Known(op, a, r, sys) ==
  CASE op = "parse2822" /\ Parse2822Known(a[1].z, a[2].n, r) -> "rfc2822-year"
    [] op = "start_of_day" /\ r \in StartOf(a[1], sys, TRUE) -> "midnight-gap"
    [] op = "day_length" /\ r \in LengthOf(a[1], sys, TRUE) -> "midnight-gap"
    [] op = "round" /\ a[2].z = "day" /\ a[1].t \in {"Zoned", "System"}
         /\ r \in Round(a[1], "day", Increment(a[3]), a[4].z, BoolOf(a[5]), sys, TRUE) -> "midnight-gap"
    [] OTHER -> ""

----------------------------------------------------------------------------
(* The state machine.                                                       *)
Initial == sysTz = "UTC" /\ heap = <<>> /\ clock = <<>>

\* the timezone of the system changes
SetTz(z) == sysTz' = z /\ UNCHANGED <<heap, clock>>

\* A value x becomes entry i of the heap.  An entry is [v, x]: the value and
\* how it presents itself otherwise (its hash and texts).
Put(h, i, e) == IF i <= Len(h) THEN [h EXCEPT ![i] = e] ELSE Append(h, e)

\* a call: its result may be kept as entry i (0: it isn't kept)
Keep(i, r, x) ==
  /\ heap' = (IF i = 0 THEN heap ELSE Put(heap, i, [v |-> r, x |-> x]))
  /\ UNCHANGED <<sysTz, clock>>
Call(op, a, r, i, x) == Allowed(op, a, r, sysTz) /\ Keep(i, r, x)

\* looking at a value of the heap: it is as it was when it was made
Look(i, v, x) == heap[i] = [v |-> v, x |-> x] /\ UNCHANGED vars

----------------------------------------------------------------------------
(* The clock.  A patch is [mode, lo, hi, real]: the value lo..hi was the    *)
(* current time when the real clock showed a moment within                  *)
(* real[1]..real[2].  mode: "frozen" or "ticking" (for which lo and hi      *)
(* differ by as much as is unknown), or "vague" (nothing is known).         *)
\* bounds of the current moment, at a real moment within lo..hi
NowBounds(lo, hi) ==
  IF clock = <<>> THEN <<lo, hi>>
  ELSE LET p == Last(clock)
       IN IF p.mode = "ticking"
          THEN <<SpanAdd(Moment(p.lo), SpanSub(lo, p.real[2])), SpanAdd(Moment(p.hi), SpanSub(hi, p.real[1]))>>
          ELSE <<Moment(p.lo), Moment(p.hi)>>

Patch(mode, v, lo, hi) == [mode |-> mode, lo |-> v, hi |-> v, real |-> <<lo, hi>>]

\* (a ticking patch that another one suspends may lose or gain the time that
\* entering and leaving the other one take)
Slack(stack, lo, hi) ==
  IF stack = <<>> \/ Last(stack).mode # "ticking" THEN stack
  ELSE LET p == Last(stack)  d == SpanSub(hi, lo)
       IN Append(Front(stack), [p EXCEPT !.real = <<SpanSub(@[1], d), SpanAdd(@[2], d)>>])

Enter(mode, v, lo, hi) ==
  /\ clock' = Append(Slack(clock, lo, hi), Patch(mode, v, lo, hi))
  /\ UNCHANGED <<sysTz, heap>>

Leave(lo, hi) ==
  /\ clock # <<>>
  /\ clock' = Slack(Front(clock), lo, hi)
  /\ UNCHANGED <<sysTz, heap>>

\* a patch that fails to be entered leaves no trace
NotEntered(lo, hi) == clock' = Slack(clock, lo, hi) /\ UNCHANGED <<sysTz, heap>>

\* the value a patch shows after the real time has gone on by span sp
Elapse(v, sp) == CHOOSE r \in WithMoment(v, SpanAdd(Moment(v), sp), sysTz) : TRUE
\* shifting it: the results of add
Shifted(v, op, a) == Results(op, <<v>> \o a, sysTz)

\* patch p after a shift, given the result r of the shift (an error, or None);
\* patches whose new time isn't known become vague
ShiftFrozen(p, op, a, r) ==
  LET vs == Shifted(p.lo, op, a)  ok == {q \in vs : ~IsErr(q)}
  IN IF r.t = "Err" THEN <<r \in vs, p>>
     ELSE IF Cardinality(ok) = 1 THEN LET v == CHOOSE v \in ok : TRUE IN <<TRUE, [p EXCEPT !.lo = v, !.hi = v]>>
     ELSE <<ok # {}, [p EXCEPT !.mode = "vague"]>>
ShiftTicking(p, op, a, r, lo, hi) ==
  LET v1 == Elapse(p.lo, SpanSub(lo, p.real[2]))  v2 == Elapse(p.hi, SpanSub(hi, p.real[1]))
      s1 == IF IsErr(v1) THEN {v1} ELSE Shifted(v1, op, a)
      s2 == IF IsErr(v2) THEN {v2} ELSE Shifted(v2, op, a)
      w1 == CHOOSE v \in s1 : TRUE
      w2 == CHOOSE v \in s2 : TRUE
  IN IF r.t = "Err" THEN <<r \in s1 \cup s2, p>>
     ELSE <<\E q \in s1 \cup s2 : ~IsErr(q),
            IF Cardinality(s1) = 1 /\ Cardinality(s2) = 1 /\ ~IsErr(w1) /\ ~IsErr(w2)
               /\ SpanSub(Moment(w2), Moment(w1)) = SpanSub(Moment(v2), Moment(v1))
            THEN [p EXCEPT !.lo = w1, !.hi = w2, !.real = <<lo, hi>>]
            ELSE [p EXCEPT !.mode = "vague"]>>
\* <<allowed?, the patch afterwards>>
ShiftResult(p, op, a, r, lo, hi) ==
  CASE p.mode = "vague" -> <<TRUE, p>>
    [] p.mode = "frozen" -> ShiftFrozen(p, op, a, r)
    [] p.mode = "ticking" -> ShiftTicking(p, op, a, r, lo, hi)
\* Patch n is shifted, which shows once the patches within it have ended.
\* (n = 0: one that has ended itself, which has no effect any more)
ShiftOK(n, op, a, r, lo, hi) ==
  n = 0 \/ (n \in 1..Len(clock) /\ ShiftResult(clock[n], op, a, r, lo, hi)[1])
ShiftStep(n, op, a, r, lo, hi) ==
  /\ n \in 0..Len(clock)
  /\ clock' = (IF n = 0 THEN clock ELSE [clock EXCEPT ![n] = ShiftResult(clock[n], op, a, r, lo, hi)[2]])
  /\ UNCHANGED <<sysTz, heap>>
ShiftClock(n, op, a, r, lo, hi) == ShiftOK(n, op, a, r, lo, hi) /\ ShiftStep(n, op, a, r, lo, hi)

\* asking for the current time as type t (a: timezone or offset; Date: the
\* current date in the system timezone) gives r,
\* while the real clock was within lo..hi
NowOK(t, a, r, lo, hi) ==
  IF clock # <<>> /\ Last(clock).mode = "vague" THEN r.t = t \/ r.t = "Err"
  ELSE LET b == NowBounds(lo, hi)
       IN IF t = "Date" THEN \E m \in {b[1], b[2]} : \E x \in AsType("System", m, None, sysTz) :
                                 IF IsErr(x) THEN r = x ELSE r = MkDate(DateOf(x))
          ELSE IF r.t = "Err" THEN \E m \in {b[1], b[2]} : r \in AsType(t, m, a, sysTz)
          ELSE /\ r.t = t
               /\ SpanCmp(b[1], Moment(r)) <= 0
               /\ SpanCmp(Moment(r), b[2]) <= 0
               /\ r \in AsType(t, Moment(r), a, sysTz)
Now(t, a, r, lo, hi) == NowOK(t, a, r, lo, hi) /\ UNCHANGED vars
=============================================================================
