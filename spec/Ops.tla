--------------------------------- MODULE Ops ---------------------------------
(* The operations of the library: for each call, with the timezone of the   *)
(* system (sys), the set of allowed results.                                *)
EXTENDS Text

OSErr == Err("OSError")
RangeErrs == {ValueErr, OSErr}

----------------------------------------------------------------------------
(* Shifting *)

\* a system value within two days of the ends of the range may be refused
\* (the standard library cannot look up its offset)
Edge(t, ord) == t = "System" /\ (ord < 4 \/ ord > MAXORD - 3)
Lenient(v, t, ord) == IF Edge(t, ord) THEN {v} \cup RangeErrs ELSE {v}

WithMoment(x, m, sys) ==
  CASE x.t = "Instant" -> {MkInstant(m)}
    [] x.t = "Offset" -> {MkOffset(m, x.n[8])}
    [] x.t = "Zoned" -> {MkZoned(m, x.z)}
    [] x.t = "System" -> Lenient(MkSystem(m, sys), "System", m[1])
    [] x.t = "Local" -> {LocalFromSpan(m)}

MomentOrLocal(x) == IF x.t = "Local" THEN LocalSpan(x) ELSE Moment(x)

\* add a span (<<>>: beyond all bounds)
AddSpan(x, sp, sys) ==
  IF sp = <<>> \/ Abs(sp[1]) > MAXDAYS THEN {ValueErr}
  ELSE WithMoment(x, SpanAdd(MomentOrLocal(x), sp), sys)

ZoneOf(x, sys) == IF x.t = "Zoned" THEN x.z ELSE sys

\* the same value on another date / at another time
\* loc: local span
Relocate(x, loc, dis, sys) ==
  CASE x.t = "Local" -> {LocalFromSpan(loc)}
    [] x.t = "Offset" -> {MkOffset(SpanAddSecs(loc, -x.n[8]), x.n[8])}
    [] x.t \in {"Zoned", "System"} ->
         Lenient(ResolveDefault(x.t, loc, ZoneOf(x, sys), dis, x.n[8]), x.t, loc[1])

\* add months, then days, keeping the time of day
AddCal(x, mo, d, dis, sys) ==
  LET nd == ShiftDate(DateOf(x), mo, d)
  IN IF nd = <<>> THEN {ValueErr}
     ELSE LET l == LocalSpan(x)
          IN Relocate(x, <<Ord(nd[1], nd[2], nd[3]), l[2], l[3]>>, dis, sys)

\* all of it: calendar units (resolved), then exact ones
Shift(x, mo, d, sp, dis, sys) ==
  IF x.t = "Instant" \/ ((mo = 0 /\ d = 0) /\ x.t \in {"Zoned", "System"})
  THEN AddSpan(x, sp, sys)
  ELSE UNION {IF IsErr(y) THEN {y} ELSE AddSpan(y, sp, sys) : y \in AddCal(x, mo, d, dis, sys)}

NegSpan(sp) == IF sp = <<>> THEN <<>> ELSE SpanNeg(sp)

\* shifting where the flag ignore_dst matters
ShiftFlag(x, mo, d, sp, dis, ign, sys) ==
  CASE \* (by nothing: whether the value takes the present system timezone's offset isn't said)
       x.t = "System" /\ mo = 0 /\ d = 0 /\ sp = SpanZero -> {x} \cup Shift(x, mo, d, sp, dis, sys)
    [] x.t = "Offset" /\ ~ign -> {IgnoreDST}
    [] x.t = "Local" /\ ~ign /\ sp # SpanZero ->
         IF sp = <<>> \/ ShiftDate(DateOf(x), mo, d) = <<>> THEN {IgnoreDST, ValueErr} ELSE {IgnoreDST}
    [] OTHER ->
         \* (an intermediate date out of range may or may not be an error)
         Shift(x, mo, d, sp, dis, sys)

KwMo(kw, sg) == sg * Clamp(KwMonths(kw))
KwDa(kw, sg) == sg * Clamp(KwDays(kw))
KwSp(kw, sg) == LET s == BigToSpan(KwNanos(kw)) IN IF sg < 0 THEN NegSpan(s) ELSE s

\* x.add(**units) / x.subtract(**units)
ShiftUnits(x, kw, sg, dis, ign, sys) ==
  IF x.t = "Date"
  THEN {MkDate(ShiftDate(x.n, KwMo(kw, sg), KwDa(kw, sg)))}
  ELSE ShiftFlag(x, KwMo(kw, sg), KwDa(kw, sg), KwSp(kw, sg), dis, ign, sys)

\* x.add(delta) / x.subtract(delta)
ShiftDelta(x, dl, sg, dis, ign, sys) ==
  LET p == Parts(IF sg < 0 THEN DeltaNeg(dl) ELSE dl)
  IN IF x.t = "Date" THEN {MkDate(ShiftDate(x.n, p[1], p[2]))}
     ELSE ShiftFlag(x, p[1], p[2], p[3], dis, ign, sys)

\* x + dl for a datetime or date x
PlusDelta(x, dl, sys) ==
  LET p == Parts(dl)
  IN CASE x.t = "Date" -> IF dl.t = "DD" THEN {MkDate(ShiftDate(x.n, p[1], p[2]))} ELSE {TypeErr}
       [] x.t = "Instant" -> IF dl.t = "TD" THEN AddSpan(x, dl.n, sys) ELSE {TypeErr}
       [] x.t = "Local" -> IF dl.t = "DD" THEN AddCal(x, p[1], p[2], "", sys) ELSE {IgnoreDST}
       [] x.t = "Offset" -> {TypeErr, IgnoreDST}
       [] x.t \in {"Zoned", "System"} ->
            IF dl.t = "TD" THEN AddSpan(x, dl.n, sys)
            ELSE UNION {IF IsErr(y) THEN {y} ELSE AddSpan(y, p[3], sys) : y \in AddCal(x, p[1], p[2], "", sys)}

IsDateTime(v) == v.t \in {"Instant", "Offset", "Zoned", "System", "Local"}

Plus(x, y, sys) ==
  CASE (IsDateTime(x) \/ x.t = "Date") /\ IsDelta(y) -> PlusDelta(x, y, sys)
    [] IsDelta(x) /\ IsDelta(y) -> {DeltaAdd(x, y)}
    [] OTHER -> {TypeErr, IgnoreDST}

Diff(x, y) == {MkTD(SpanSub(MomentOrLocal(x), MomentOrLocal(y)))}

Minus(x, y, sys) ==
  CASE IsExact(x) /\ IsExact(y) -> Diff(x, y)
    [] x.t = "Local" /\ y.t = "Local" -> {IgnoreDST}
    [] x.t = "Offset" /\ IsDelta(y) -> {IgnoreDST}
    [] (IsDateTime(x) \/ x.t = "Date") /\ IsDelta(y) -> PlusDelta(x, DeltaNeg(y), sys)
    [] x.t = "Date" /\ y.t = "Date" -> LET r == DateDiff(x.n, y.n) IN {MkDD(r[1], r[2])}
    [] IsDelta(x) /\ IsDelta(y) -> {DeltaAdd(x, DeltaNeg(y))}
    [] OTHER -> {TypeErr, IgnoreDST}

Difference(x, y, ign) ==
  CASE IsExact(x) /\ IsExact(y) -> Diff(x, y)
    [] x.t = "Local" /\ y.t = "Local" -> IF ign THEN Diff(x, y) ELSE {IgnoreDST}

----------------------------------------------------------------------------
(* Comparing: <<eq, ne, lt, le, gt, ge, equal hashes>>, 2 for a TypeError   *)
RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, i) ==
  IF i > Len(a) THEN 0 ELSE IF a[i] # b[i] THEN Sgn(a[i] - b[i]) ELSE LexCmp(a, b, i + 1)

Ordered == {"Date", "YearMonth", "MonthDay", "Time", "Local", "TD"}
B01(b) == IF b THEN 1 ELSE 0
OrderVec(c) == <<B01(c = 0), B01(c # 0), B01(c < 0), B01(c <= 0), B01(c > 0), B01(c >= 0)>>
EqVec(eq) == <<B01(eq), B01(~eq), 2, 2, 2, 2>>
CmpVec(x, y) ==
  CASE IsExact(x) /\ IsExact(y) -> OrderVec(SpanCmp(Moment(x), Moment(y)))
    [] x.t = y.t /\ x.t = "TD" -> OrderVec(SpanCmp(x.n, y.n))
    [] x.t = y.t /\ x.t \in Ordered -> OrderVec(LexCmp(x.n, y.n, 1))
    [] x.t = y.t /\ x.t \in {"DD", "DTD"} -> EqVec(x.n = y.n)
    [] OTHER -> EqVec(FALSE)
Cmp(x, y) ==
  LET c == CmpVec(x, y)
  IN IF c[1] = 1 THEN {V("Cmp", c \o <<1>>)} ELSE {V("Cmp", c \o <<0>>), V("Cmp", c \o <<1>>)}

ExactEq(x, y) ==
  IF x.t = y.t THEN {Bool(x.n = y.n /\ x.z = y.z)} ELSE {Bool(FALSE), TypeErr}

----------------------------------------------------------------------------
(* Making values *)
FieldNat(f, i) == LET b == <<f[i][1], Tail(f[i])>>
                  IN IF BIsSmall(b) THEN BSmall(b) ELSE b[1] * GIGA
FieldNats(v) == [i \in 1..Len(v.n) |-> FieldNat(v.n, i)]

NOOFF == 10000000
\* an offset argument: whole hours or a TimeDelta
OffArg(v) ==
  CASE v.t = "Int" -> LET h == NatOf(v) IN IF Abs(h) < 24 THEN h * 3600 ELSE NOOFF
    [] v.t = "TD" ->
         IF v.n[3] = 0 /\ v.n[1] \in {-1, 0} /\ ValidOffset(v.n[1] * DAY + v.n[2])
         THEN v.n[1] * DAY + v.n[2] ELSE NOOFF

KnownZone(z) == z \in DOMAIN ZoneData
NoZone == {Err("ZoneNotFound"), ValueErr}

Assume(loc, t, z, dis) ==   \* loc a Local value or an error
  IF IsErr(loc) THEN {loc} ELSE Lenient(ResolveIn(t, LocalSpan(loc), z, dis), t, OrdOf(loc))

AssumeOffset(loc, off) ==
  IF IsErr(loc) \/ ~ValidOffset(off) THEN ValueErr
  ELSE MkOffset(SpanAddSecs(LocalSpan(loc), -off), off)

DisArg(s) == IF s = "" THEN "compatible" ELSE s

New(t, f, a3, a4, sys) ==
  CASE t = "Date" -> {MkDate(FieldNats(f))}
    [] t = "YearMonth" -> LET q == FieldNats(f) IN
         {IF q[1] \in 1..9999 /\ q[2] \in 1..12 THEN V("YearMonth", q) ELSE ValueErr}
    [] t = "MonthDay" -> LET q == FieldNats(f) IN
         {IF q[1] \in 1..12 /\ q[2] >= 1 /\ q[2] <= DaysInMonth(4, q[1]) THEN V("MonthDay", q) ELSE ValueErr}
    [] t = "Time" -> LET q == FieldNats(f) IN {MkTime(q[1], q[2], q[3], q[4])}
    [] t = "Local" -> {MkLocal(FieldNats(f))}
    [] t = "Instant" -> LET v == MkLocal(FieldNats(f)) IN {IF IsErr(v) THEN v ELSE MkInstant(LocalSpan(v))}
    [] t = "Offset" -> {AssumeOffset(MkLocal(FieldNats(f)), OffArg(a3))}
    [] t = "Zoned" -> LET v == MkLocal(FieldNats(f))
                      IN IF ~KnownZone(a3.z) THEN NoZone ELSE Assume(v, "Zoned", a3.z, DisArg(a4.z))
    [] t = "System" -> Assume(MkLocal(FieldNats(f)), "System", sys, DisArg(a4.z))
    [] t = "TD" -> {NewTD(f.n)}
    [] t = "DD" -> {NewDD(f.n)}
    [] t = "DTD" -> {NewDTD(f.n)}

\* a moment as type t; a: timezone or offset
AsType(t, m, a, sys) ==
  CASE t = "Instant" -> {MkInstant(m)}
    [] t = "Zoned" -> IF KnownZone(a.z) THEN {MkZoned(m, a.z)} ELSE NoZone
    [] t = "Offset" -> LET o == OffArg(a) IN {IF o = NOOFF THEN ValueErr ELSE MkOffset(m, o)}
    [] t = "System" -> Lenient(MkSystem(m, sys), "System", m[1])

EPOCHORD == 719163
Scale(unit) == CASE unit = "s" -> BGIGA [] unit = "ms" -> BMILLI [] unit = "ns" -> Big(1)

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN Big(1) ELSE IF k <= 20 THEN Big(2 ^ k) ELSE BMul(Big(1048576), Pow2(k - 20))
\* a float: <<sgn, k, limbs...>> stands for sgn * limbs / 2^k
FloatNum(v) == <<v.n[1], SubSeq(v.n, 3, Len(v.n))>>
FloatDen(v) == Pow2(v.n[2])

MomentOfEpochNs(b) == LET sp == BigToSpan(b) IN
  IF sp = <<>> \/ Abs(sp[1]) > 10000000 THEN <<>> ELSE SpanAdd(<<EPOCHORD, 0, 0>>, sp)
FromEpoch(t, b, a, sys) ==
  LET m == MomentOfEpochNs(b)
  IN IF m = <<>> \/ ~ValidMoment(m) THEN RangeErrs
     ELSE LET r == AsType(t, m, a, sys) IN IF ValueErr \in r THEN r \cup RangeErrs ELSE r

FromTimestamp(unit, t, x, a, ign, sys) ==
  IF t = "Offset" /\ ~ign THEN {IgnoreDST}
  ELSE IF x.t = "Int" THEN FromEpoch(t, BMul(BigOf(x), Scale(unit)), a, sys)
  ELSE IF unit # "s" THEN {TypeErr}
  ELSE IF x.z # "" THEN RangeErrs     \* nan, inf
  ELSE LET qr == BFloorDiv(BMul(FloatNum(x), BGIGA), FloatDen(x))
       IN IF qr[2] = BZero THEN FromEpoch(t, qr[1], a, sys)
          ELSE FromEpoch(t, qr[1], a, sys) \cup FromEpoch(t, BAdd(qr[1], Big(1)), a, sys)

EpochNs(x) == SpanToBig(SpanSub(Moment(x), <<EPOCHORD, 0, 0>>))
Timestamp(unit, x) ==
  LET m == Moment(x)
      d == Big(m[1] - EPOCHORD)
      secs == BAdd(BMul(d, Big(DAY)), Big(m[2]))
  IN CASE unit = "s" -> {MkInt(secs)}
       [] unit = "ms" -> {MkInt(BAdd(BMul(secs, Big(1000)), Big(m[3] \div 1000000)))}
       [] unit = "ns" -> {MkInt(BAdd(BMul(secs, BGIGA), Big(m[3])))}

----------------------------------------------------------------------------
(* Replacing fields.  kw: sequence of 7, each <<>> or a big *)
ReplField(kw, i, old) == IF kw[i] = <<>> THEN old ELSE FieldNat(kw, i)
ReplFields(x, kw) == [i \in 1..7 |-> ReplField(kw, i, x.n[i])]

Replace(x, kw, tz, off, dis, ign, sys) ==
  CASE x.t = "Date" -> {MkDate([i \in 1..3 |-> ReplField(kw, i, x.n[i])])}
    [] x.t = "YearMonth" ->
         LET y == ReplField(kw, 1, x.n[1])  m == ReplField(kw, 2, x.n[2])
         IN {IF y \in 1..9999 /\ m \in 1..12 THEN V("YearMonth", <<y, m>>) ELSE ValueErr}
    [] x.t = "MonthDay" ->
         LET m == ReplField(kw, 2, x.n[1])  d == ReplField(kw, 3, x.n[2])
         IN {IF m \in 1..12 /\ d >= 1 /\ d <= DaysInMonth(4, m) THEN V("MonthDay", <<m, d>>) ELSE ValueErr}
    [] x.t = "Time" ->
         LET q == [i \in 1..4 |-> ReplField(kw, i + 3, x.n[i])] IN {MkTime(q[1], q[2], q[3], q[4])}
    [] x.t = "Local" -> {MkLocal(ReplFields(x, kw))}
    [] x.t = "Offset" ->
         IF ~ign THEN {IgnoreDST}
         ELSE {AssumeOffset(MkLocal(ReplFields(x, kw)), IF off.t = "None" THEN x.n[8] ELSE OffArg(off))}
    [] x.t = "Zoned" ->
         LET l == MkLocal(ReplFields(x, kw))
             z == IF tz = "" THEN x.z ELSE tz
         IN IF ~KnownZone(z) THEN NoZone
            ELSE IF IsErr(l) THEN {l}
            ELSE {ResolveDefault("Zoned", LocalSpan(l), z,
                                 IF dis = "" /\ z # x.z THEN "compatible" ELSE dis, x.n[8])}
    [] x.t = "System" ->
         LET l == MkLocal(ReplFields(x, kw))
         IN IF IsErr(l) THEN {l}
            ELSE Lenient(ResolveDefault("System", LocalSpan(l), sys, dis, x.n[8]), "System", OrdOf(l))

ReplaceDate(x, d, dis, ign, sys) ==
  IF x.t = "Offset" /\ ~ign THEN {IgnoreDST}
  ELSE LET l == LocalSpan(x) IN Relocate(x, <<OrdOf(d), l[2], l[3]>>, dis, sys)
ReplaceTime(x, t, dis, ign, sys) ==
  IF x.t = "Offset" /\ ~ign THEN {IgnoreDST}
  ELSE Relocate(x, <<OrdOf(x), SecsOf(t.n[1], t.n[2], t.n[3]), t.n[4]>>, dis, sys)

----------------------------------------------------------------------------
(* Days and rounding *)
\* (dev: with the known deviation)
DayLength(z, d, dev) ==
  LET a == DayStart(z, d, dev)  b == DayStart(z, d + 1, dev) IN Span(b[1] - a[1], b[2] - a[2], 0)

StartOf(x, sys, dev) ==
  LET s == DayStart(ZoneOf(x, sys), OrdOf(x), dev)
  IN IF ValidOrd(s[1]) THEN Lenient(InZone(x.t, <<s[1], s[2], 0>>, ZoneOf(x, sys)), x.t, OrdOf(x))
     ELSE {ValueErr}
\* at the last day of the calendar there is no next day to measure to
LengthOf(x, sys, dev) ==
  LET d == OrdOf(x)
      s == DayStart(ZoneOf(x, sys), d, dev)  e == DayStart(ZoneOf(x, sys), d + 1, dev)
      v == MkTD(DayLength(ZoneOf(x, sys), d, dev))
  IN IF d = MAXORD \/ ~ValidOrd(s[1]) \/ ~ValidOrd(e[1]) THEN {v, ValueErr}
     ELSE Lenient(v, x.t, d)
IsAmbiguous(x, sys) ==
  LET l == LocalSpan(x) IN Lenient(Bool(Resolve(ZoneOf(x, sys), <<l[1], l[2]>>)[1] = "fold"), x.t, l[1])

TimeSpan(x) == LET l == LocalSpan(x) IN <<0, l[2], l[3]>>

\* the date whose start a DST-aware value is rounded to
RoundToDayUp(x, mode, sys, dev) ==
  LET t == TimeSpan(x)
      len == DayLength(ZoneOf(x, sys), OrdOf(x), dev)
      cmp == SpanCmp(SpanAdd(t, t), len)
  IN t # SpanZero /\ RoundsUp(mode, cmp, TRUE)

\* an increment has to be a whole number (fractions are refused like zero is)
Increment(v) == IF v.t = "Float" THEN 0 ELSE NatOf(v)
RoundArgsOK(x, u, inc, mode) ==
  /\ u \in Units
  /\ mode \in Modes
  /\ ~(u = "day" /\ x.t \in {"TD", "Time", "Instant"})
  /\ ValidIncrement(u, inc, x.t = "TD")

Round(x, u, inc, mode, ign, sys, dev) ==
  IF x.t = "Offset" /\ ~ign THEN {IgnoreDST}
  ELSE IF ~RoundArgsOK(x, u, inc, mode) THEN {ValueErr}
  ELSE CASE x.t = "TD" -> {MkTD(RoundSpan(x.n, u, inc, mode))}
    [] x.t = "Time" ->
         LET r == RoundDayTime(SecsOf(x.n[1], x.n[2], x.n[3]), x.n[4], u, inc, mode)
         IN {V("Time", HMS(r[2]) \o <<r[3]>>)}
    [] x.t = "Instant" ->
         LET r == RoundDayTime(x.n[2], x.n[3], u, inc, mode)
         IN {MkInstant(<<x.n[1] + r[1], r[2], r[3]>>)}
    [] x.t \in {"Local", "Offset"} \/ (x.t \in {"Zoned", "System"} /\ u # "day") ->
         LET l == LocalSpan(x)
             r == RoundDayTime(l[2], l[3], u, inc, mode)
         IN IF l[1] + r[1] > MAXORD THEN {ValueErr}
            ELSE Relocate(x, <<l[1] + r[1], r[2], r[3]>>, "", sys)
    [] OTHER ->
         LET up == RoundToDayUp(x, mode, sys, dev)
             d == OrdOf(x) + (IF up THEN 1 ELSE 0)
             s == DayStart(ZoneOf(x, sys), d, dev)
         IN IF d > MAXORD \/ ~ValidOrd(s[1]) THEN {ValueErr}
            ELSE {InZone(x.t, <<s[1], s[2], 0>>, ZoneOf(x, sys))}
                 \cup (IF Edge("System", d) THEN RangeErrs ELSE {})

----------------------------------------------------------------------------
(* The standard library's types.                                            *)
(*   PyDT   y m d h mi s us fold offset-seconds offset-us, z = naive, fixed *)
(*          or the name of a ZoneInfo                                       *)
(*   PyDate y m d    PyTime h mi s us fold aware    PyTD days secs us       *)
FoldsOf(x) ==
  LET l == LocalSpan(x)
      r == Resolve(x.z, <<l[1], l[2]>>)
  IN IF r[1] = "fold" THEN {IF x.n[8] = r[3] THEN 1 ELSE 0}
     ELSE 0..1    \* (it means nothing)

\* (the fold of a datetime without timezone means nothing)
ToPy(x) ==
  CASE x.t = "Date" -> {V("PyDate", x.n)}
    [] x.t = "Time" -> {V("PyTime", <<x.n[1], x.n[2], x.n[3], x.n[4] \div 1000, f, 0>>) : f \in 0..1}
    [] x.t = "TD" -> {V("PyTD", <<x.n[1], x.n[2], x.n[3] \div 1000>>)}
    [] x.t = "Instant" ->
         LET f == Fields(x.n) IN {VZ("PyDT", SubSeq(f, 1, 6) \o <<f[7] \div 1000, 0, 0, 0>>, "fixed")}
    [] x.t = "Local" -> {VZ("PyDT", SubSeq(x.n, 1, 6) \o <<x.n[7] \div 1000, f, 0, 0>>, "naive") : f \in 0..1}
    [] x.t \in {"Offset", "System"} ->
         {VZ("PyDT", SubSeq(x.n, 1, 6) \o <<x.n[7] \div 1000, 0, x.n[8], 0>>, "fixed")}
    [] x.t = "Zoned" ->
         {VZ("PyDT", SubSeq(x.n, 1, 6) \o <<x.n[7] \div 1000, f, x.n[8], 0>>, x.z) : f \in FoldsOf(x)}

\* a PyDT's local span
PyLocal(p) == <<OrdOf(p), SecsOf(p.n[4], p.n[5], p.n[6]), p.n[7] * 1000>>
PyMoment(p) == Span(OrdOf(p), SecsOf(p.n[4], p.n[5], p.n[6]) - p.n[9], p.n[7] * 1000 - p.n[10] * 1000)

FromPy(t, p) ==
  CASE t = "Date" -> IF p.t \in {"PyDate"} THEN {V("Date", p.n)} ELSE {TypeErr, ValueErr, V("Date", SubSeq(p.n, 1, 3))}
    [] t = "Time" -> IF p.n[6] = 1 THEN {ValueErr}
                     ELSE {V("Time", <<p.n[1], p.n[2], p.n[3], p.n[4] * 1000>>)}
    [] t = "TD" -> {MkTD(<<p.n[1], p.n[2], p.n[3] * 1000>>)}
    [] t = "Local" -> IF p.z # "naive" THEN {ValueErr} ELSE {V("Local", Fields(PyLocal(p)))}
    [] t = "Instant" -> IF p.z \in {"naive", "nooffset"} THEN {ValueErr} ELSE {MkInstant(PyMoment(p))}
    [] t \in {"Offset", "System"} ->
         IF p.z \in {"naive", "nooffset"} \/ p.n[10] # 0 \/ ~ValidMoment(PyMoment(p)) THEN {ValueErr}
         ELSE {V(t, Fields(PyLocal(p)) \o <<p.n[9]>>)}
    [] t = "Zoned" ->
         IF p.z \in {"naive", "nooffset", "fixed", "other"} THEN {ValueErr}
         ELSE {MkZoned(PyMoment(p), p.z)}

\* what strptime of the standard library reads (p, or an error), as type t
Strptime(t, p) ==
  IF IsErr(p) THEN {p}
  ELSE CASE t = "Local" -> FromPy("Local", p)
         [] t = "Offset" -> FromPy("Offset", p)

----------------------------------------------------------------------------
(* The small operations *)
TDUnit(u) ==
  CASE u = "days_of_24h" -> BDAYNS
    [] u = "hours" -> BHOUR
    [] u = "minutes" -> BMINUTE
    [] u = "seconds" -> BGIGA
    [] u = "milliseconds" -> BMILLI
    [] u = "microseconds" -> BMICRO
\* is the float f the nearest (or next to the nearest) to a / b?
FloatClose(f, a, b) ==
  \* |f - a/b| <= |a/b| / 2^51
  LET lhs == BMul(BAbs(BSub(BMul(FloatNum(f), b), BMul(a, FloatDen(f)))), Pow2(51))
      rhs == BMul(BAbs(a), FloatDen(f))
  IN f.t = "Float" /\ f.z = "" /\ BCmp(lhs, rhs) <= 0
\* is the span r within 1 ns + a/b * 2^-51 of a / b?  (a, b bigs)
SpanClose(r, a, b) ==
  LET diff == BAbs(BSub(BMul(SpanToBig(r), b), a))
  IN BCmp(BMul(diff, Pow2(50)), BAdd(BAbs(a), BMul(BAbs(b), Pow2(50)))) <= 0

Ints(s) == V("Ints", s)
IntSeq(b) == <<b[1]>> \o b[2]
HMSN(x) ==
  LET a == SpanAbs(x.n)  sg == SpanSgn(x.n)
      I(k) == IntSeq(Big(sg * k))
  IN Ints(<<I(a[1] * 24 + a[2] \div 3600), I((a[2] \div 60) % 60), I(a[2] % 60), I(a[3])>>)
TruncDiv(a, b) == Sgn(a) * (Abs(a) \div b)
TruncMod(a, b) == Sgn(a) * (Abs(a) % b)
SpanSecsBig(sp) == BAdd(BMul(Big(sp[1]), Big(DAY)), Big(sp[2]))

Get(name, x) ==
  CASE name = "year_month" -> {V("YearMonth", <<x.n[1], x.n[2]>>)}
    [] name = "month_day" -> {V("MonthDay", <<x.n[2], x.n[3]>>)}
    [] name = "day_of_week" -> {Int32(Weekday(OrdOf(x)))}
    [] name = "is_leap" -> {Bool(x.n = <<2, 29>>)}
    [] name = "date" -> {V("Date", DateOf(x))}
    [] name = "time" -> {V("Time", TimeFields(x))}
    [] name = "local" -> {V("Local", SubSeq(x.n, 1, 7))}
    [] name = "instant" -> {V("Instant", Moment(x))}
    [] name = "offset" -> {V("TD", Span(0, x.n[8], 0))}
    [] name = "tz" -> {Str(ZoneData[x.z].codes)}
    [] name = "date_part" -> {V("DD", SubSeq(x.n, 1, 2))}
    [] name = "time_part" -> {V("TD", SubSeq(x.n, 3, 5))}
    [] name = "in_nanoseconds" -> {MkInt(SpanToBig(x.n))}
    [] name = "hmsn" -> {HMSN(x)}
    [] name = "in_months_days" -> {Ints(<<IntSeq(Big(x.n[1])), IntSeq(Big(x.n[2]))>>)}
    [] name = "in_years_months_days" ->
         {Ints(<<IntSeq(Big(TruncDiv(x.n[1], 12))), IntSeq(Big(TruncMod(x.n[1], 12))), IntSeq(Big(x.n[2]))>>)}
    [] name = "in_months_days_secs_nanos" ->
         LET sp == SubSeq(x.n, 3, 5)  a == SpanAbs(sp)  sg == SpanSgn(sp)
         IN {Ints(<<IntSeq(Big(x.n[1])), IntSeq(Big(x.n[2])),
                    IntSeq(BMul(Big(sg), SpanSecsBig(a))), IntSeq(Big(sg * a[3]))>>)}
    [] name = "bool" -> {Bool(DeltaSgn(x) # 0)}
    [] name = "neg" -> {DeltaNeg(x)}
    [] name = "pos" -> {x}
    [] name = "abs" -> {DeltaAbs(x)}
    [] name = "iso" -> {Str(IsoTxt(x))}
    [] name = "repr" -> {Str(ReprTxt(x))}
    [] name = "rfc3339" -> {Str(Rfc3339Txt(x))}
    [] name = "rfc2822" -> {Str(Rfc2822Txt(x))}
         \cup (IF x.t = "Offset" /\ (Abs(x.n[8]) % 60) # 0 THEN {Str(Rfc2822Txt(x) \o Pad2(Abs(x.n[8]) % 60))} ELSE {})
    [] name = "py" -> ToPy(x)

Consts(name) ==
  CASE name = "Instant.MIN" -> {V("Instant", <<1, 0, 0>>)}
    [] name = "Instant.MAX" -> {V("Instant", <<MAXORD, 86399, 999999999>>)}
    [] name = "LocalDateTime.MIN" -> {V("Local", <<1, 1, 1, 0, 0, 0, 0>>)}
    [] name = "LocalDateTime.MAX" -> {V("Local", <<9999, 12, 31, 23, 59, 59, 999999999>>)}
    [] name = "Date.MIN" -> {V("Date", <<1, 1, 1>>)}
    [] name = "Date.MAX" -> {V("Date", <<9999, 12, 31>>)}
    [] name = "YearMonth.MIN" -> {V("YearMonth", <<1, 1>>)}
    [] name = "YearMonth.MAX" -> {V("YearMonth", <<9999, 12>>)}
    [] name = "MonthDay.MIN" -> {V("MonthDay", <<1, 1>>)}
    [] name = "MonthDay.MAX" -> {V("MonthDay", <<12, 31>>)}
    [] name = "Time.MIDNIGHT" -> {V("Time", <<0, 0, 0, 0>>)}
    [] name = "Time.NOON" -> {V("Time", <<12, 0, 0, 0>>)}
    [] name = "Time.MAX" -> {V("Time", <<23, 59, 59, 999999999>>)}
    [] name = "TimeDelta.ZERO" -> {V("TD", SpanZero)}
    [] name = "TimeDelta.MAX" -> {V("TD", <<MAXDAYS, 0, 0>>)}
    [] name = "TimeDelta.MIN" -> {V("TD", <<-MAXDAYS, 0, 0>>)}
    [] name = "DateDelta.ZERO" -> {V("DD", <<0, 0>>)}
    [] name = "DateTimeDelta.ZERO" -> {V("DTD", <<0, 0, 0, 0, 0>>)}

----------------------------------------------------------------------------
(* Pickles.  The payload of each type, as bytes: little-endian fields.      *)
LE16(b, i) == b[i] + 256 * b[i + 1]
LE32Big(b, i) == BAdd(BMul(Big(LE16(b, i + 2)), Big(65536)), Big(LE16(b, i)))
LE32(b, i) == BSmall(LE32Big(b, i))      \* for values below 10^9
SLE32(b, i) ==                             \* signed, small
  IF b[i + 3] >= 128 THEN BSmall(BSub(LE32Big(b, i), BMul(Big(65536), Big(65536)))) ELSE LE32(b, i)
LE64(b, i) == BAdd(BMul(LE32Big(b, i + 4), BMul(Big(65536), Big(65536))), LE32Big(b, i))
SLE64(b, i) ==
  IF b[i + 7] >= 128
  THEN BSub(LE64(b, i), BMul(BMul(Big(65536), Big(65536)), BMul(Big(65536), Big(65536)))) ELSE LE64(b, i)
DTPayload(b) == <<LE16(b, 1), b[3], b[4], b[5], b[6], b[7], LE32(b, 8)>>

\* The local time f of the timezone z when its offset is o.  A pickle may be
\* from a time when the timezone had other rules.
ZonedWith(f, o, z) ==
  IF z \notin DOMAIN ZoneData THEN {Err("ZoneNotFound")}
  ELSE LET loc == LocalSpan(V("Local", f))
           u == SpanAddSecs(loc, -o)
       IN IF ~ValidMoment(u) THEN {ValueErr, Err("InvalidOffset")}
          ELSE IF OffsetAt(z, <<u[1], u[2]>>) = o THEN {VZ("Zoned", f \o <<o>>, z)}
          ELSE OneOr({Err("InvalidOffset")}, loc[1] < 3 \/ loc[1] > MAXORD - 2)

\* b: bytes; more: further arguments
Unpickle(t, b, z, more) ==
  CASE t = "Date" -> {MkDate(<<LE16(b, 1), b[3], b[4]>>)}
    [] t = "YearMonth" -> {V("YearMonth", <<LE16(b, 1), b[3]>>)}
    [] t = "MonthDay" -> {V("MonthDay", <<b[1], b[2]>>)}
    [] t = "Time" -> {V("Time", <<b[1], b[2], b[3], LE32(b, 4)>>)}
    [] t = "Local" -> {V("Local", DTPayload(b))}
    [] t = "Instant" ->     \* seconds since the day before 0001-01-01, nanoseconds
         {V("Instant", BigToSpan(BAdd(BMul(SLE64(b, 1), BGIGA), Big(LE32(b, 9)))))}
    [] t \in {"Offset", "System"} -> {V(t, DTPayload(b) \o <<SLE32(b, 12)>>)}
    [] t = "Zoned" -> ZonedWith(DTPayload(b), SLE32(b, 12), z)
    [] t = "TD" -> {V("TD", BigToSpan(BAdd(BMul(SLE64(b, 1), BGIGA), Big(LE32(b, 9)))))}
    [] t = "DD" -> {V("DD", <<NatOf(more[1]), NatOf(more[2])>>)}
    [] t = "DTD" -> {V("DTD", <<NatOf(more[1]), NatOf(more[2])>>
                            \o BigToSpan(BAdd(BMul(BigOf(more[3]), BGIGA), BigOf(more[4]))))}

----------------------------------------------------------------------------
(* RFC 2822 texts that the specification vouches for:                       *)
(*   [Ddd, ]D+ Mon YYYY HH:MM:SS zone, zone = GMT, UT, UTC, +hhmm, -hhmm    *)
(* Other texts may be refused or read as any valid value.                   *)
MonthAt(s, i) == {m \in 1..12 : i + 2 <= Len(s) /\ SubSeq(s, i, i + 2) = MonthNames[m]}
Zones2822 == {<<71, 77, 84>>, <<85, 84>>, <<85, 84, 67>>}
Read2822(s) ==    \* <<>> or <<fields, offset, zone kind>>
  LET i0 == IF Is(s, 4, cCOMMA) /\ Is(s, 5, cSPACE) /\ SubSeq(s, 1, 3) \in {DayNames[k] : k \in 1..7} THEN 6 ELSE 1
      k == DigitRun(s, i0)
      i1 == i0 + k + 1            \* month
      y == ReadNum(s, i1 + 4, 4)
      i2 == i1 + 9                \* time
      t == ReadHMS(s, i2)
      i3 == i2 + 9                \* zone
      zt == SubSeq(s, i3, Len(s))
      zn == ReadNum(s, i3 + 1, 4)
      f == <<IF y = <<>> THEN 0 ELSE y[2], CHOOSE m \in 0..12 : m = 0 \/ m \in MonthAt(s, i1),
             IF k \in 1..2 THEN Num(s, i0, k) ELSE 0>>
  IN IF ~(k \in 1..2) \/ MonthAt(s, i1) = {} \/ y = <<>> \/ t = <<>> \/ ~Is(s, i1 - 1, cSPACE)
        \/ ~Is(s, i1 + 3, cSPACE) \/ ~Is(s, i1 + 8, cSPACE) \/ ~Is(s, i2 + 8, cSPACE) THEN <<>>
     ELSE LET m == CHOOSE m \in MonthAt(s, i1) : TRUE
              d == Num(s, i0, k)
          IN IF ~ValidYMD(y[2], m, d) THEN <<>>
             ELSE IF zt \in Zones2822 THEN <<<<y[2], m, d>> \o t[2], 0, "name">>
             ELSE IF zn # <<>> /\ Len(s) = i3 + 4 /\ IsIn(s, i3, {cPLUS, cMINUS})
                     /\ zn[2] % 100 < 60 /\ zn[2] \div 100 < 24
             THEN LET a == ((zn[2] \div 100) * 3600) + ((zn[2] % 100) * 60)
                  IN <<<<y[2], m, d>> \o t[2], IF s[i3] = cMINUS THEN -a ELSE a,
                       IF s[i3] = cMINUS /\ a = 0 THEN "unknown" ELSE "num">>
             ELSE <<>>
\* known deviation of the standard library's parser: years below 100
StdYear(y) == IF y >= 100 THEN y ELSE IF y > 68 THEN 1900 + y ELSE 2000 + y
As2822(t, r, y) ==
  LET f == <<y>> \o SubSeq(r[1], 2, 7)
      v == IF ValidYMD(f[1], f[2], f[3]) THEN OffsetFrom(f, r[2]) ELSE ValueErr
  IN IF t = "Offset" THEN (IF r[3] = "unknown" THEN ValueErr ELSE v)
     ELSE IF r[2] # 0 THEN ValueErr
     ELSE IF IsErr(v) THEN v ELSE MkInstant(Moment(v))
Parse2822OK(t, s, res) ==
  LET r == Read2822(s)
  IN IF r = <<>> THEN res = ValueErr \/ (res.t = t /\ Valid(res))
     ELSE res = As2822(t, r, r[1][1])
Parse2822Known(t, s, res) ==
  LET r == Read2822(s)
  IN r # <<>> /\ r[1][1] < 100 /\ res = As2822(t, r, StdYear(r[1][1]))
=============================================================================
