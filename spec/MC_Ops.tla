------------------------------- MODULE MC_Ops --------------------------------
(* The laws that the operations obey, on the specification's definitions of *)
(* them, in the made-up zones of models/zones.json: x is any value, and y   *)
(* any other value or duration.                                             *)
EXTENDS Whenever
CONSTANT Deep
VARIABLES x, y, ph

Sys == "E"
One(S) == CHOOSE r \in S : TRUE
\* moments at and around the changes of the zones
PointsOf(z) == {Sec(t[1], t[2] + k) : t \in {ZoneData[z].trans[i] : i \in 1..Len(ZoneData[z].trans)},
                                      k \in IF Deep THEN {-86400, -43200, -5400, -1800, -1, 0, 1, 1800, 3599, 43200} ELSE {-1800, 0}}
Ns(m) == IF m[2] % 2 = 0 THEN 0 ELSE 999999999
Zoneds == UNION {{MkZoned(<<m[1], m[2], Ns(m)>>, z) : m \in PointsOf(z)} : z \in DOMAIN ZoneData}
Systems == {MkSystem(<<m[1], m[2], Ns(m)>>, Sys) : m \in PointsOf(Sys)}
Instants == {V("Instant", <<m[1], m[2], Ns(m)>>) : m \in PointsOf("N") \cup PointsOf("L")} \cup {V("Instant", <<1, 0, 0>>), V("Instant", <<MAXORD, 86399, 999999999>>)}
Offsets1 == {MkOffset(<<m[1], m[2], Ns(m)>>, o) : m \in PointsOf("N"), o \in {0, -12600, 86399, -1}}
   \cup {V("Offset", <<1, 1, 1, 0, 0, 0, 0, 0>>), V("Offset", <<9999, 12, 31, 23, 59, 59, 999999999, 3600>>)}
Locals == {One(Get("local", z)) : z \in {MkZoned(<<m[1], m[2], 0>>, "L") : m \in PointsOf("L")}}
   \cup {V("Local", <<2024, 2, 29, 12, 0, 0, 1>>), V("Local", <<1, 1, 1, 0, 0, 0, 0>>), V("Local", <<9999, 12, 31, 23, 59, 59, 999999999>>)}
Dates == {V("Date", <<1, 1, 1>>), V("Date", <<9999, 12, 31>>), V("Date", <<2024, 2, 29>>), V("Date", <<2023, 1, 31>>), V("Date", <<1999, 9, 5>>)}
Exacts == {v \in Zoneds \cup Systems \cup Instants \cup Offsets1 : ~IsErr(v)}
Values == Exacts \cup Locals \cup Dates
TDs == {V("TD", sp) : sp \in {SpanZero, <<0, 3600, 0>>, <<-1, 82800, 0>>, <<0, 0, 1>>, <<-1, 86399, 999999999>>, <<1, 0, 0>>, <<2, 5000, 7>>, <<MAXDAYS, 0, 0>>}}
DDs == {V("DD", p) : p \in {<<0, 0>>, <<0, 1>>, <<0, -1>>, <<1, 0>>, <<-1, 0>>, <<13, 2>>, <<0, 4>>, <<-12, -6>>, <<MAXMONTHS, 0>>}}
DTDs == {V("DTD", p) : p \in {<<0, 0, 0, 3600, 0>>, <<0, 1, 0, 3600, 0>>, <<1, 0, 0, 0, 1>>, <<0, -2, -1, 82800, 0>>}}

Init == Initial /\ x \in Values /\ y = None /\ ph = 0
Others == IF Deep THEN Values ELSE {v \in Values : v.t # "Zoned" \/ v.z \in {"N", "L"}}
Next == ph = 0 /\ ph' = 1 /\ y' \in Others \cup TDs \cup DDs \cup DTDs /\ UNCHANGED <<x, vars>>
Spec == Init /\ [][Next]_<<x, y, ph, vars>>

Ok(S) == {r \in S : ~IsErr(r)}
SameKind(r, v) == r.t = v.t /\ r.z = v.z
IsDT(v) == v.t \in {"Instant", "Offset", "Zoned", "System", "Local"}

----------------------------------------------------------------------------
WellFormed == Valid(x)
\* C01
ExactLaws ==
  IsExact(x) /\ y.t = "TD" /\ x.t # "Offset" =>
    \A r \in Ok(Plus(x, y, Sys)) :
      /\ SameKind(r, x) /\ Valid(r)
      /\ Moment(r) = SpanAdd(Moment(x), y.n)
      /\ Minus(r, x, Sys) = {y}
      /\ \A q \in Ok(Minus(r, y, Sys)) : q = x
      /\ \A q \in Ok(Plus(r, DeltaNeg(y), Sys)) : q = x
DiffLaws ==
  IsExact(x) /\ IsExact(y) =>
    LET d == One(Minus(x, y, Sys)) IN
      /\ d.t = "TD" /\ Minus(y, x, Sys) = {DeltaNeg(d)}
      /\ y.t # "Offset" => \A r \in Ok(Plus(y, d, Sys)) : Moment(r) = Moment(x)
\* C02: a total order of moments, whatever the types
OrderLaws ==
  IsExact(x) /\ IsExact(y) =>
    \A c \in Cmp(x, y), e \in Cmp(y, x) :
      /\ c.n[1] = e.n[1] /\ c.n[3] = e.n[5] /\ c.n[4] = e.n[6]
      /\ c.n[1] + c.n[3] + c.n[5] = 1
      /\ c.n[1] + c.n[2] = 1 /\ c.n[4] = Max2(c.n[1], c.n[3]) /\ c.n[6] = Max2(c.n[1], c.n[5])
      /\ (c.n[1] = 1 => c.n[7] = 1)
      /\ (c.n[1] = 1 <=> Moment(x) = Moment(y))
      /\ (BoolOf(One(ExactEq(x, y) \cap {Bool(TRUE), Bool(FALSE)})) => c.n[1] = 1)
\* C03, C22
ConvertLaws ==
  IsExact(x) =>
    /\ \A z \in DOMAIN ZoneData : \A r \in Ok(Results("to_tz", <<x, Sym(z)>>, Sys)) :
         Moment(r) = Moment(x) /\ r.z = z /\ Valid(r) /\ \A q \in Ok(Results("to_tz", <<r, Sym(z)>>, Sys)) : q = r
    /\ \A o \in {Int32(0), Int32(-5), V("TD", <<0, 45296, 0>>)} : \A r \in Ok(Results("to_fixed", <<x, o>>, Sys)) :
         Moment(r) = Moment(x) /\ Valid(r)
    /\ \A r \in Ok(Results("to_system", <<x>>, Sys)) : Moment(r) = Moment(x) /\ r.n[8] = OffsetAt(Sys, <<Moment(x)[1], Moment(x)[2]>>)
    /\ Get("instant", x) = {V("Instant", Moment(x))} \/ x.t = "Instant"
\* C24
EpochLaws ==
  IsExact(x) =>
    LET ns == One(Timestamp("ns", x))  ms == One(Timestamp("ms", x))  s == One(Timestamp("s", x))
    IN /\ FromTimestamp("ns", "Instant", ns, None, TRUE, Sys) = {V("Instant", Moment(x))}
       /\ BFloorDiv(BigOf(ns), BGIGA)[1] = BigOf(s) /\ BFloorDiv(BigOf(ns), BMILLI)[1] = BigOf(ms)
\* C05, C19: the wall clock shows the shifted date and the same time, except in gaps
WallLaws ==
  IsDT(x) /\ x.t # "Instant" /\ y.t = "DD" =>
    LET nd == ShiftDate(DateOf(x), y.n[1], y.n[2])
    IN \A r \in Shift(x, y.n[1], y.n[2], SpanZero, "", Sys) :
         IF IsErr(r) THEN TRUE
         ELSE /\ SameKind(r, x) /\ Valid(r)
              /\ nd # <<>>
              /\ LET want == <<Ord(nd[1], nd[2], nd[3]), LocalSpan(x)[2], LocalSpan(x)[3]>>
                     kind == IF x.t \in {"Zoned", "System"} THEN Resolve(ZoneOf(x, Sys), <<want[1], want[2]>>)[1] ELSE "one"
                 IN kind # "gap" => LocalSpan(r) = want
              /\ (y.n = <<0, 0>> => r = x)
              /\ (x.t = "Offset" => r.n[8] = x.n[8])
PureLaws ==
  x.t = "Local" /\ y.t = "TD" =>
    \A r \in Ok(ShiftFlag(x, 0, 0, y.n, "", TRUE, Sys)) :
      LocalSpan(r) = SpanAdd(LocalSpan(x), y.n) /\ Difference(r, x, TRUE) = {y}
\* calendar units first, then exact ones
MixedLaws ==
  IsDT(x) /\ x.t # "Instant" /\ y.t = "DTD" =>
    \A r \in Ok(Shift(x, y.n[1], y.n[2], SubSeq(y.n, 3, 5), "", Sys)) :
      \E q \in Ok(Shift(x, y.n[1], y.n[2], SpanZero, "", Sys)) : MomentOrLocal(r) = SpanAdd(MomentOrLocal(q), SubSeq(y.n, 3, 5))
\* C23
Flat(n) == IntSeq(Big(n))
NoKw == [i \in 1..7 |-> <<>>]
ReplaceLaws ==
  IsDT(x) /\ x.t # "Instant" /\ y = None =>
    /\ Replace(x, NoKw, "", None, "", TRUE, Sys) = {x}
    /\ \A i \in 1..7 : Replace(x, [NoKw EXCEPT ![i] = Flat(x.n[i])], "", None, "", TRUE, Sys) = {x}
    /\ ReplaceDate(x, V("Date", DateOf(x)), "", TRUE, Sys) = {x}
    /\ ReplaceTime(x, V("Time", TimeFields(x)), "", TRUE, Sys) = {x}
    /\ \A h \in {0, 2, 23} : \A r \in Ok(Replace(x, [NoKw EXCEPT ![4] = Flat(h)], "", None, "", TRUE, Sys)) :
         \/ r.n[4] = h /\ DateOf(r) = DateOf(x) /\ SubSeq(r.n, 5, 7) = SubSeq(x.n, 5, 7)
         \/ x.t \in {"Zoned", "System"} /\ Resolve(ZoneOf(x, Sys), <<OrdOf(x), SecsOf(h, x.n[5], x.n[6])>>)[1] = "gap"
\* C18, C13
DayLaws ==
  x.t \in {"Zoned", "System"} /\ y = None =>
    LET s == One(Ok(StartOf(x, Sys, FALSE)))  len == One(Ok(LengthOf(x, Sys, FALSE)))
        e == SpanAdd(Moment(s), len.n)
        nx == DayStart(ZoneOf(x, Sys), OrdOf(x) + 1, FALSE)
    IN /\ SpanLE(Moment(s), Moment(x)) /\ (SpanLT(Moment(x), e) \/ Resolve(ZoneOf(x, Sys), <<OrdOf(x) + 1, 0>>)[1] = "fold")
       /\ e = <<nx[1], nx[2], 0>>
       /\ OrdOf(s) = OrdOf(x) /\ StartOf(s, Sys, FALSE) = {s}
       /\ \A m \in Modes : \A r \in Round(x, "day", 1, m, TRUE, Sys, FALSE) :
            /\ Moment(r) \in {Moment(s), e}
            /\ (m = "floor" => r = s)
            /\ (LocalSpan(x) = <<OrdOf(x), 0, 0>> => Moment(r) = Moment(s))
\* C16: to microseconds, nothing is lost
PyLaws ==
  x.t \in {"Zoned", "Offset", "Local"} /\ y = None =>
    \A p \in ToPy(x) : \A r \in FromPy(x.t, p) :
      r = [x EXCEPT !.n[7] = (@ \div 1000) * 1000] \/ (x.t = "Zoned" /\ Resolve(x.z, LET l == LocalSpan(x) IN <<l[1], l[2]>>)[1] = "gap")
\* C06: differences of dates
DateLaws ==
  x.t = "Date" /\ y.t = "Date" =>
    LET d == One(Minus(x, y, Sys))
    IN ~IsErr(d) /\ Plus(y, d, Sys) = {x} /\ Results("days_since", <<x, y>>, Sys) = {Int32(OrdOf(x) - OrdOf(y))}
\* C20: partial dates and dates
PartialLaws ==
  x.t = "Date" /\ y = None =>
    LET ym == One(Get("year_month", x))  md == One(Get("month_day", x))
    IN /\ Results("on_day", <<ym, Int32(x.n[3])>>, Sys) = {x}
       /\ Results("in_year", <<md, Int32(x.n[1])>>, Sys) = {x}
       /\ Get("is_leap", md) = {Bool(md.n = <<2, 29>>)}
       /\ \A yr \in {1, 1900, 2000, 2023, 2024, 9999, 10000, 0} : \A r \in Results("in_year", <<md, Int32(yr)>>, Sys) :
            IF IsErr(r) THEN yr \notin 1..9999 \/ (md.n = <<2, 29>> /\ ~IsLeap(yr))
            ELSE r.n = <<yr>> \o md.n /\ Get("month_day", r) = {md}
       /\ \A d \in 0..32 : \A r \in Results("on_day", <<ym, Int32(d)>>, Sys) :
            IF IsErr(r) THEN d < 1 \/ d > DaysInMonth(ym.n[1], ym.n[2]) ELSE r.n = ym.n \o <<d>>
\* C12: the bytes of a pickle, and back
Bytes(n, len) ==     \* little-endian, two's complement; n a native integer
  [i \in 1..len |-> IF i <= 4 THEN (n \div (CASE i = 1 -> 1 [] i = 2 -> 256 [] i = 3 -> 65536 [] i = 4 -> 16777216)) % 256
                    ELSE IF n < 0 THEN 255 ELSE 0]
DTBytes(f) == Bytes(f[1], 2) \o <<f[2], f[3], f[4], f[5], f[6]>> \o Bytes(f[7], 4)
PickleLaws ==
  y = None =>
  CASE x.t = "Date" -> Unpickle("Date", Bytes(x.n[1], 2) \o <<x.n[2], x.n[3]>>, "", <<>>) = {x}
    [] x.t = "Local" -> Unpickle("Local", DTBytes(x.n), "", <<>>) = {x}
    [] x.t \in {"Offset", "System", "Zoned"} -> Unpickle(x.t, DTBytes(x.n) \o Bytes(x.n[8], 4), x.z, <<>>) = {x}
    [] OTHER -> TRUE
\* C14: whatever comes out is a value within the range, or an error
Closed ==
  /\ IsDelta(y) => \A r \in Plus(x, y, Sys) \cup Minus(x, y, Sys) : IsErr(r) \/ Valid(r)
  /\ IsDelta(y) => \A r \in ShiftDelta(x, y, 1, "", TRUE, Sys) \cup ShiftDelta(x, y, -1, IF x.t \in {"Zoned", "System"} THEN "later" ELSE "", TRUE, Sys) : IsErr(r) \/ Valid(r)
\* C15: refused combinations
Refused ==
  /\ x.t \in {"Date", "Local"} /\ IsExact(y) => \A r \in Minus(x, y, Sys) \cup Plus(x, y, Sys) : IsErr(r)
  /\ x.t \in {"Local", "Offset"} /\ y.t = "TD" => \A r \in Plus(x, y, Sys) \cup Minus(x, y, Sys) \cup ShiftDelta(x, y, 1, "", FALSE, Sys) :
        IsErr(r) \/ (x.t = "Local" /\ y.n = SpanZero)
  /\ x.t = "Instant" /\ y.t \in {"DD", "DTD"} => \A r \in Plus(x, y, Sys) : IsErr(r)
  /\ IsDT(x) /\ IsDT(y) => \A r \in Plus(x, y, Sys) : IsErr(r)
=============================================================================
