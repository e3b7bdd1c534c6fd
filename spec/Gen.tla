--------------------------------- MODULE Gen ---------------------------------
(* Behaviours of the state machine, made at random by TLC (-simulate) and   *)
(* written out as scripts that are then carried out with the real library.  *)
(* Every step is one of the machine's actions: the heap holds the values    *)
(* that the specification predicts, and the choice of the next step depends *)
(* on them.                                                                 *)
EXTENDS Whenever

Menu == JsonDeserialize(IOEnv.WHENEVER_MENU)
Profile == IOEnv.WHENEVER_PROFILE      \* heap, system, clock
Depth == Menu.depth

VARIABLES script, k

Pick(S) == RandomElement(S)
OneOf(seq) == seq[RandomElement(1..Len(seq))]

----------------------------------------------------------------------------
(* Calls *)
H(j) == [h |-> j, v |-> heap[j].v]
L(v) == [h |-> 0, v |-> v]
Handles(ts) == {j \in 1..Len(heap) : heap[j].v.t \in ts}
Exacts == {"Instant", "Offset", "Zoned", "System"}
Deltas == {"TD", "DD", "DTD"}
DateTimes == Exacts \cup {"Local"}
HasDate == {"Offset", "Zoned", "System", "Local"}

Int1(i) == L(Int32(i))
Flag == L(Bool(Pick(1..6) # 1))
Dis(t) == L(Sym(IF t \in {"Zoned", "System"} THEN Pick({"", "", "compatible", "earlier", "later", "raise"}) ELSE ""))
ZoneArg == L(Sym(OneOf(Menu.zones)))
OffArg1 == L(OneOf(Menu.offsets))
NoArg == L(None)

GetNames(t) ==
  {"repr"} \cup
  CASE t = "Date" -> {"year_month", "month_day", "day_of_week", "iso", "py"}
    [] t = "Time" -> {"iso", "py"}
    [] t = "YearMonth" -> {"iso"}
    [] t = "MonthDay" -> {"iso", "is_leap"}
    [] t = "Local" -> {"date", "time", "iso", "py"}
    [] t = "Instant" -> {"iso", "py", "rfc3339"}
    [] t \in {"Offset"} -> {"date", "time", "local", "instant", "offset", "iso", "py", "rfc3339"}
    [] t \in {"Zoned"} -> {"date", "time", "local", "instant", "offset", "tz", "iso", "py"}
    [] t \in {"System"} -> {"date", "time", "local", "instant", "offset", "iso", "py"}
    [] t = "TD" -> {"in_nanoseconds", "hmsn", "neg", "abs", "pos", "bool", "iso"}
    [] t = "DD" -> {"in_months_days", "in_years_months_days", "neg", "abs", "pos", "bool", "iso"}
    [] t = "DTD" -> {"date_part", "time_part", "in_months_days_secs_nanos", "neg", "abs", "pos", "bool", "iso"}

OpsOf(t) ==
  {"get", "cmp", "same"} \cup
  (IF t \in Exacts THEN {"plus", "minus", "add", "sub", "addd", "subd", "to_tz", "to_fixed", "to_system", "exact_eq", "timestamp", "difference", "round"} ELSE {}) \cup
  (IF t \in {"Zoned", "System"} THEN {"start_of_day", "day_length", "is_ambiguous", "to_system", "add", "sub"} ELSE {}) \cup
  (IF t \in HasDate THEN {"replace", "replace_date", "replace_time"} ELSE {}) \cup
  (IF t = "Local" THEN {"plus", "minus", "add", "sub", "addd", "subd", "assume_utc", "assume_fixed", "assume_tz", "assume_system", "difference", "round"} ELSE {}) \cup
  (IF t = "Date" THEN {"plus", "minus", "add", "sub", "at", "days_since", "days_until", "replace"} ELSE {}) \cup
  (IF t = "Time" THEN {"on", "round", "replace"} ELSE {}) \cup
  (IF t = "YearMonth" THEN {"on_day", "replace"} ELSE {}) \cup
  (IF t = "MonthDay" THEN {"in_year", "replace"} ELSE {}) \cup
  (IF t \in Deltas THEN {"plus", "minus", "mul"} ELSE {}) \cup
  (IF t = "TD" THEN {"floordiv", "mod", "round"} ELSE {})

\* units that can be given to type t
KWs(t) == IF t = "Instant" THEN Menu.timekws ELSE IF t = "Date" THEN Menu.datekws ELSE Menu.kws
Some(S, j) == IF S = {} THEN j ELSE Pick(S)   \* a handle out of S (or j)

\* arguments for op on entry i
ArgsFor(op, i) ==
  LET t == heap[i].v.t IN
  CASE op = "get" -> <<L(Sym(Pick(GetNames(t)))), H(i)>>
    [] op \in {"cmp"} -> <<H(i), H(Pick(1..Len(heap)))>>
    [] op = "exact_eq" -> <<H(i), H(Pick(Handles({t})))>>
    [] op = "plus" -> <<H(i), H(Some(Handles(IF t \in Deltas THEN Deltas ELSE IF t = "Date" THEN {"DD"} ELSE IF t = "Instant" THEN {"TD"} ELSE Deltas), i))>>
    [] op = "minus" -> <<H(i), H(Some(IF t \in Deltas THEN Handles(Deltas)
                                       ELSE IF t = "Date" THEN Handles({"DD", "Date"})
                                       ELSE IF t = "Local" THEN Handles({"DD", "Local"})
                                       ELSE Handles(Exacts \cup (IF t = "Instant" THEN {"TD"} ELSE Deltas)), i))>>
    [] op \in {"add", "sub"} -> <<H(i), L(OneOf(KWs(t))), Dis(t), IF t \in {"Local", "Offset"} THEN Flag ELSE L(Bool(TRUE))>>
    [] op \in {"addd", "subd"} -> IF t = "Instant" \/ Handles(Deltas) = {} THEN <<>>
                                  ELSE <<H(i), H(Pick(Handles(Deltas))), Dis(t), IF t \in {"Local", "Offset"} THEN Flag ELSE L(Bool(TRUE))>>
    [] op = "to_tz" -> <<H(i), ZoneArg>>
    [] op = "to_fixed" -> <<H(i), IF Pick(1..3) = 1 THEN NoArg ELSE OffArg1>>
    [] op \in {"same", "to_system", "start_of_day", "day_length", "is_ambiguous", "assume_utc"} -> <<H(i)>>
    [] op = "assume_fixed" -> <<H(i), OffArg1>>
    [] op = "assume_tz" -> <<H(i), ZoneArg, L(Sym(Pick({"compatible", "earlier", "later", "raise"})))>>
    [] op = "assume_system" -> <<H(i), L(Sym(Pick({"compatible", "earlier", "later", "raise"})))>>
    [] op = "timestamp" -> <<L(Sym(Pick({"s", "ms", "ns"}))), H(i)>>
    [] op = "difference" -> IF t = "Local" THEN <<H(i), H(Pick(Handles({"Local"}))), Flag>> ELSE <<H(i), H(Pick(Handles(Exacts))), L(Bool(FALSE))>>
    [] op = "round" -> <<H(i), L(Sym(Pick({"hour", "minute", "second", "millisecond", "nanosecond"} \cup (IF Pick(1..3) = 1 THEN {"day"} ELSE {})))),
                         Int1(1), L(Sym(Pick(Modes))), IF t = "Offset" THEN Flag ELSE L(Bool(TRUE))>>
    [] op = "replace" ->
         LET kw == OneOf(CASE t \in {"Date", "YearMonth", "MonthDay"} -> Menu.dreplace [] t = "Time" -> Menu.treplace [] OTHER -> Menu.replace)
             kw2 == CASE t = "YearMonth" -> [kw EXCEPT !.n = [@ EXCEPT ![3] = <<>>]]
                      [] t = "MonthDay" -> [kw EXCEPT !.n = [@ EXCEPT ![1] = <<>>]]
                      [] OTHER -> kw
         IN <<H(i), L(kw2), L(Sym(IF t = "Zoned" /\ Pick(1..4) = 1 THEN OneOf(Menu.zones) ELSE "")), NoArg, Dis(t), IF t = "Offset" THEN Flag ELSE L(Bool(TRUE))>>
    [] op = "replace_date" -> IF Handles({"Date"}) = {} THEN <<>> ELSE <<H(i), H(Pick(Handles({"Date"}))), Dis(t), IF t = "Offset" THEN Flag ELSE L(Bool(TRUE))>>
    [] op = "replace_time" -> IF Handles({"Time"}) = {} THEN <<>> ELSE <<H(i), H(Pick(Handles({"Time"}))), Dis(t), IF t = "Offset" THEN Flag ELSE L(Bool(TRUE))>>
    [] op = "at" -> IF Handles({"Time"}) = {} THEN <<>> ELSE <<H(i), H(Pick(Handles({"Time"})))>>
    [] op = "on" -> IF Handles({"Date"}) = {} THEN <<>> ELSE <<H(i), H(Pick(Handles({"Date"})))>>
    [] op \in {"days_since", "days_until"} -> <<H(i), H(Pick(Handles({"Date"})))>>
    [] op = "on_day" -> <<H(i), Int1(Pick({1, 28, 29, 30, 31}))>>
    [] op = "in_year" -> <<H(i), Int1(Pick({1, 1900, 2000, 2023, 2024, 9999}))>>
    [] op = "mul" -> <<H(i), Int1(Pick(-3..3))>>
    [] op \in {"floordiv", "mod"} -> <<H(i), H(Pick(Handles({"TD"})))>>

Values(args) == [j \in 1..Len(args) |-> args[j].v]
Hs(args) == [j \in 1..Len(args) |-> args[j].h]
Literals(args) == [j \in 1..Len(args) |-> IF args[j].h = 0 THEN args[j].v ELSE None]

\* kinds of values that go on the heap
HeapTypes == DateTimes \cup Deltas \cup {"Date", "Time", "YearMonth", "MonthDay"}

Say(s) == script' = Append(script, s)

GenCall(i) ==
  \E op \in {Pick(OpsOf(heap[i].v.t))} :
    \E args \in {ArgsFor(op, i)} :
      IF args = <<>> THEN Say([act |-> "skip"]) /\ UNCHANGED vars
      ELSE \E r \in {Pick(Results(op, Values(args), sysTz))} :
             LET new == IF r.t \in HeapTypes THEN (IF Len(heap) < Menu.width THEN Len(heap) + 1 ELSE Pick(1..Menu.width)) ELSE 0
             IN \E j \in {new} :
                  /\ Call(op, Values(args), r, j, <<>>)
                  /\ Say([act |-> "call", op |-> op, h |-> Hs(args), a |-> Literals(args), i |-> j])

\* a value from outside
GenValue ==
  \E v \in {OneOf(Menu.values)} :
    \E j \in {IF Len(heap) < Menu.width THEN Len(heap) + 1 ELSE Pick(1..Menu.width)} :
      /\ Call("same", <<v>>, v, j, <<>>)
      /\ Say([act |-> "value", v |-> v, i |-> j])

\* a value of the system timezone: of a local time, by the constructor or not,
\* or of a timestamp
SystemArgs(op) ==
  LET d == Sym(Pick({"compatible", "earlier", "later", "raise"})) IN
  CASE op = "assume_system" -> <<OneOf(Menu.locals), d>>
    [] op = "new" -> <<Sym("System"), V("Fields", [j \in 1..7 |-> IntSeq(Big(OneOf(Menu.locals).n[j]))]), None, d>>
    [] op = "from_timestamp" -> LET u == Pick({"s", "ms", "ns"})
                                IN <<Sym(u), Sym("System"), CHOOSE n \in Timestamp(u, OneOf(Menu.pins)) : TRUE, None, Bool(FALSE)>>
GenSystem ==
  \E op \in {Pick({"assume_system", "assume_system", "new", "from_timestamp"})} : \E args \in {SystemArgs(op)} :
    \E r \in {Pick(Results(op, args, sysTz))} :
      \E j \in {IF IsErr(r) THEN 0 ELSE IF Len(heap) < Menu.width THEN Len(heap) + 1 ELSE Pick(1..Menu.width)} :
        /\ Call(op, args, r, j, <<>>)
        /\ Say([act |-> "call", op |-> op, h |-> [n \in 1..Len(args) |-> 0], a |-> args, i |-> j])

GenTz == \E z \in {OneOf(Menu.sys)} : SetTz(z) /\ Say([act |-> "tz", z |-> z])

----------------------------------------------------------------------------
(* The clock.  Real time doesn't go on here: it is made up when the script  *)
(* is carried out.                                                          *)
Real == <<EPOCHORD, 0, 0>>

GenEnter ==
  \E mode \in {Pick({"frozen", "ticking"})} :
    \E v \in {OneOf(IF mode = "frozen" THEN Menu.pins ELSE Menu.midpins)} :
      \E how \in {Pick({"with", "with", "with", "decorator"})} :
        Enter(mode, v, Real, Real) /\ Say([act |-> "enter", mode |-> mode, v |-> v, how |-> how])
GenLeave == \E how \in {Pick({"normal", "normal", "exception"})} : Leave(Real, Real) /\ Say([act |-> "leave", how |-> how])
\* a patch that isn't entered at all, since what it should pin isn't a moment
GenFail == UNCHANGED vars /\ Say([act |-> "fail"])
\* (mostly the innermost patch; 0: one that has ended)
GenShift ==
  \E n \in {Pick({Len(clock), Pick({Len(clock), Pick(0..Len(clock))})})} :
  \E p \in {IF n = 0 THEN Patch("frozen", OneOf(Menu.midpins), Real, Real) ELSE clock[n]} :
  LET t == p.lo.t IN
  \E op \in {IF t = "Instant" THEN "add" ELSE Pick({"add", "add", "addd"})} :
  \E d \in {IF op = "addd" THEN OneOf(Menu.deltas) ELSE OneOf(IF t = "Instant" THEN Menu.timekws ELSE Menu.kws)} :
    \E a \in {<<d, Dis(t).v, Bool(TRUE)>>} :
      \E r \in {Pick(Shifted(p.lo, op, a))} :
        ShiftClock(n, op, a, IF IsErr(r) THEN r ELSE None, Real, Real) /\ Say([act |-> "shift", n |-> n, op |-> op, a |-> a])
GenNow ==
  \E t \in {Pick({"Instant", "Offset", "Zoned", "System", "Date"})} :
    \E z \in {CASE t = "Zoned" -> Sym(OneOf(Menu.zones)) [] t = "Offset" -> OneOf(Menu.offsets) [] OTHER -> None} :
      UNCHANGED vars /\ Say([act |-> "now", t |-> t, z |-> z])
GenSleep == UNCHANGED vars /\ Say([act |-> "sleep"])

----------------------------------------------------------------------------
GenInit == Initial /\ script = <<>> /\ k = 0
Next1(c) ==
  CASE Profile = "clock" ->
         (IF clock = <<>> THEN (IF c <= 50 THEN GenEnter ELSE IF c <= 84 THEN GenNow ELSE IF c <= 86 THEN GenFail ELSE IF c <= 90 THEN GenShift ELSE GenTz)
          ELSE IF c <= 35 THEN GenNow
          ELSE IF c <= 55 THEN GenShift
          ELSE IF c <= 68 THEN (IF Len(clock) < 4 THEN GenEnter ELSE GenLeave)
          ELSE IF c <= 85 THEN GenLeave
          ELSE IF c <= 92 THEN GenSleep
          ELSE IF c <= 94 THEN GenFail
          ELSE GenTz)
    [] heap = <<>> \/ (k < 6) -> IF Profile = "system" /\ c <= 60 THEN (IF c <= 20 THEN GenTz ELSE GenSystem) ELSE GenValue
    [] Profile = "system" ->
         (IF c <= 23 THEN GenTz
          ELSE IF c <= 26 THEN GenNow
          ELSE IF c <= 35 THEN GenSystem
          ELSE IF c <= 42 THEN GenValue
          ELSE \E i \in {Pick(IF Handles({"System"}) # {} /\ c <= 85 THEN Handles({"System"}) ELSE 1..Len(heap))} : GenCall(i))
    [] OTHER ->
         (IF c <= 3 THEN GenTz ELSE IF c <= 12 THEN GenValue ELSE \E i \in {Pick(1..Len(heap))} : GenCall(i))

WriteOut(s) == Serialize(ToJson(s) \o "\n", IOEnv.WHENEVER_SCRIPTS,
                 [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
GenNext ==
  /\ k < Depth
  /\ k' = k + 1
  /\ \E c \in {Pick(1..100)} : Next1(c)
  /\ (IF k + 1 = Depth THEN WriteOut(script') ELSE TRUE)
GenSpec == GenInit /\ [][GenNext]_<<vars, script, k>>
=============================================================================
