------------------------------- MODULE Values -------------------------------
(* The values of the library, as records [t, n, z]: type, numbers, name.    *)
(*   Date      y m d                  YearMonth  y m      MonthDay  m d     *)
(*   Time      h mi s ns                                                    *)
(*   Local     y m d h mi s ns                                              *)
(*   Instant   ordinal second ns                                            *)
(*   Offset    y m d h mi s ns offset        (offset in seconds)            *)
(*   Zoned     the same, z = timezone name                                  *)
(*   System    the same                                                     *)
(*   TD        days seconds ns (a span)                                     *)
(*   DD        months days                                                  *)
(*   DTD       months days  span-days span-seconds span-ns                  *)
(*   Int       sgn limbs...   (a big)       Float  sgn exp limbs...         *)
(*   Bool 0/1  Str codes...   Sym (z)  None  Err (z = kind)                 *)
EXTENDS Zone

V(t, n) == [t |-> t, n |-> n, z |-> ""]
VZ(t, n, z) == [t |-> t, n |-> n, z |-> z]
Err(k) == [t |-> "Err", n |-> <<>>, z |-> k]
IsErr(v) == v.t = "Err"
ValueErr == Err("Value")
TypeErr == Err("Type")
IgnoreDST == Err("IgnoreDST")
None == V("None", <<>>)
Bool(b) == V("Bool", IF b THEN <<1>> ELSE <<0>>)
Str(s) == V("Str", s)
Sym(z) == VZ("Sym", <<>>, z)

BoolOf(v) == v.n = <<1>>
BigOf(v) == <<v.n[1], Tail(v.n)>>
MkInt(b) == V("Int", <<b[1]>> \o b[2])
Int32(k) == MkInt(Big(k))
\* a native integer, exact below 10^9 and otherwise just as much out of bounds
NatOf(v) == LET b == BigOf(v) IN IF BIsSmall(b) THEN BSmall(b) ELSE b[1] * GIGA

----------------------------------------------------------------------------
DateOf(v) == SubSeq(v.n, 1, 3)
OrdOf(v) == Ord(v.n[1], v.n[2], v.n[3])
SecsOf(h, mi, s) == h * 3600 + mi * 60 + s
HMS(secs) == <<secs \div 3600, (secs \div 60) % 60, secs % 60>>

MkDate(ymd) == IF ymd # <<>> /\ ValidYMD(ymd[1], ymd[2], ymd[3]) THEN V("Date", ymd) ELSE ValueErr
ValidTime(h, mi, s, ns) ==
  /\ h \in 0..23
  /\ mi \in 0..59
  /\ s \in 0..59
  /\ ns >= 0
  /\ ns < GIGA
MkTime(h, mi, s, ns) == IF ValidTime(h, mi, s, ns) THEN V("Time", <<h, mi, s, ns>>) ELSE ValueErr

\* local datetime from fields
MkLocal(f) ==
  IF ValidYMD(f[1], f[2], f[3]) /\ ValidTime(f[4], f[5], f[6], f[7])
  THEN V("Local", f) ELSE ValueErr

IsLocalType(t) == t \in {"Local", "Offset", "Zoned", "System"}
IsExact(v) == v.t \in {"Instant", "Offset", "Zoned", "System"}

\* the local second and nanosecond, as a span
LocalSpan(v) ==
  <<OrdOf(v), SecsOf(v.n[4], v.n[5], v.n[6]), v.n[7]>>
TimeFields(v) == SubSeq(v.n, 4, 7)
OffsetOf(v) == v.n[8]

Fields(span) == YMD(span[1]) \o HMS(span[2]) \o <<span[3]>>
LocalFromSpan(sp) == IF ValidOrd(sp[1]) THEN V("Local", Fields(sp)) ELSE ValueErr

\* the moment of an exact value
Moment(v) == IF v.t = "Instant" THEN v.n ELSE SpanAddSecs(LocalSpan(v), -v.n[8])

ValidMoment(m) == ValidOrd(m[1])
MkInstant(m) == IF ValidMoment(m) THEN V("Instant", m) ELSE ValueErr

\* a value of type t showing moment m with the given offset
Show(t, m, off, z) ==
  LET l == SpanAddSecs(m, off)
  IN IF ValidMoment(m) /\ ValidOrd(l[1]) THEN VZ(t, Fields(l) \o <<off>>, z) ELSE ValueErr
ValidOffset(off) == off > -DAY /\ off < DAY
MkOffset(m, off) == IF ValidOffset(off) THEN Show("Offset", m, off, "") ELSE ValueErr
MkZoned(m, z) == IF ValidMoment(m) THEN Show("Zoned", m, OffsetAt(z, <<m[1], m[2]>>), z) ELSE ValueErr
MkSystem(m, sys) == IF ValidMoment(m) THEN Show("System", m, OffsetAt(sys, <<m[1], m[2]>>), "") ELSE ValueErr
\* of type t, in timezone z (a system value carries no name)
InZone(t, m, z) == IF t = "Zoned" THEN MkZoned(m, z) ELSE MkSystem(m, z)

----------------------------------------------------------------------------
(* Resolving a local time in a timezone.  dis: compatible, earlier, later,  *)
(* raise.  The result is a value of type t or an error.                     *)
DisOptions == {"compatible", "earlier", "later", "raise"}

ResolveIn(t, loc, z, dis) ==
  IF dis \notin DisOptions THEN ValueErr
  ELSE LET r == Resolve(z, <<loc[1], loc[2]>>)
       IN IF dis = "raise" /\ r[1] = "gap" THEN Err("Skipped")
          ELSE IF dis = "raise" /\ r[1] = "fold" THEN Err("Repeated")
          ELSE InZone(t, SpanAddSecs(loc, -UseDis(r, dis)), z)

\* keeping the offset prev where possible
ResolveKeep(t, loc, z, prev) ==
  LET r == Resolve(z, <<loc[1], loc[2]>>)
  IN InZone(t, SpanAddSecs(loc, -UsePrev(r, prev)), z)

\* dis = "" stands for the default: keep the offset
ResolveDefault(t, loc, z, dis, prev) ==
  IF dis = "" THEN ResolveKeep(t, loc, z, prev) ELSE ResolveIn(t, loc, z, dis)

Valid(v) ==
  CASE v.t = "Date" -> ValidYMD(v.n[1], v.n[2], v.n[3])
    [] v.t = "YearMonth" -> v.n[1] \in MINYEAR..MAXYEAR /\ v.n[2] \in 1..12
    [] v.t = "MonthDay" -> v.n[1] \in 1..12 /\ v.n[2] \in 1..DaysInMonth(4, v.n[1])
    [] v.t = "Time" -> ValidTime(v.n[1], v.n[2], v.n[3], v.n[4])
    [] v.t = "Instant" -> ValidMoment(v.n) /\ v.n[2] \in 0..86399 /\ v.n[3] >= 0 /\ v.n[3] < GIGA
    [] v.t = "Local" -> ~IsErr(MkLocal(v.n))
    [] v.t \in {"Offset", "System"} ->
         ~IsErr(MkLocal(SubSeq(v.n, 1, 7))) /\ ValidOffset(v.n[8]) /\ ValidMoment(Moment(v))
    [] v.t = "Zoned" ->
         /\ ~IsErr(MkLocal(SubSeq(v.n, 1, 7))) /\ ValidOffset(v.n[8])
         /\ LET m == Moment(v)
            IN ValidMoment(m) /\ OffsetAt(v.z, <<m[1], m[2]>>) = v.n[8]
    [] OTHER -> TRUE
=============================================================================
