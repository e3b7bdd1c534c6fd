#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only for readable line breaks)."""
import json
PY = "pysrc/whenever/_pywhenever.py"
INIT = "pysrc/whenever/__init__.py"
P = []
def prop(id, title, statement, over, text, why, mech, files=(PY,), observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Exact-time arithmetic moves a moment by exactly the given duration",
 "Adding or subtracting an exact duration (hours down to nanoseconds) to an Instant, ZonedDateTime, SystemDateTime or (with ignore_dst) OffsetDateTime gives the moment exactly that many nanoseconds later or earlier, expressed in the same timezone or offset, whatever DST transitions lie in between. The difference of any two exact-time values is the exact number of nanoseconds between their moments, so `a + (b - a) == b` and adding a duration and then subtracting it returns the start.",
 ["inputs"], "every value of each exact type, every duration, every timezone and DST transition, nanosecond precision, both signs",
 "Tests sample a few transitions and round durations; carries between nanosecond, second, day, offset and fold cannot be enumerated by examples.",
 [("Instant.add/_shift, __sub__", PY+" class Instant"), ("ZonedDateTime/SystemDateTime.add: exact part through UTC", PY+" ZonedDateTime.add"), ("_KnowsInstant.difference", PY+" class _KnowsInstant")],
 observe=("add/subtract/+/-/difference of the exact types",))

prop("C02", "Exact types compare, order and hash by the moment they represent",
 "For values of any mix of Instant, OffsetDateTime, ZonedDateTime and SystemDateTime, ==, !=, <, <=, >, >= agree with the order of the moments in nanoseconds, and equal values have equal hashes. exact_eq is true only if the type, the moment, the local time, the offset and the timezone are all the same; local and partial types (LocalDateTime, Date, Time, YearMonth, MonthDay, and the deltas) order by their value, never compare equal across types, and hash consistently.",
 ["inputs"], "every pair (and triple) of values, across all type combinations, including folds and sub-microsecond differences",
 "Tests compare a handful of pairs per type pair; cross-type, sub-microsecond and fold combinations multiply far beyond what is listed.",
 [("_KnowsInstant comparison operators, __hash__", PY+" class _KnowsInstant"), ("exact_eq of each type", PY)],
 observe=("comparison operators", "hash()", "exact_eq"))

prop("C03", "Conversions between exact types preserve the moment",
 "Converting between Instant, OffsetDateTime, ZonedDateTime and SystemDateTime (instant, to_tz, to_fixed_offset, to_system_tz) yields a value for the same moment to the nanosecond, whose UTC offset is the one the timezone rules prescribe at that moment (or the fixed offset asked for), and whose local fields are that moment shifted by the offset. Any chain of conversions ends at the same moment, and converting back to the original timezone or offset restores the original value.",
 ["inputs", "histories"], "every moment in range, every timezone (including sub-minute historical offsets and rules beyond the last tabulated transition), every chain of conversions",
 "Tests convert a few summer and winter times; transitions, historical offsets and long chains are not reached.",
 [("to_tz/to_fixed_offset/to_system_tz/instant/local", PY+" class _KnowsInstant and subclasses")],
 observe=("instant()", "to_tz()", "to_fixed_offset()", "to_system_tz()", "local()", "offset"))

prop("C04", "Local times resolve to moments as the disambiguation option says",
 "Creating a ZonedDateTime or SystemDateTime from a local time (constructor, assume_tz, assume_system_tz) keeps the local time if it occurs exactly once; if it is repeated, 'earlier'/'compatible' picks the first occurrence and 'later' the second; if it is skipped, 'later'/'compatible' moves it forward and 'earlier' backward by the size of the gap. With 'raise' a repeated time raises RepeatedTime and a skipped one SkippedTime, and no resulting value ever shows a local time that does not exist in its timezone.",
 ["inputs", "configurations"], "every local time, timezone and disambiguation option, all gaps and folds including non-hour ones and those at the edges of days, years and rule eras",
 "Tests use two or three zones with one-hour transitions; the boundary seconds and unusual transitions are unbounded in number.",
 [("_resolve_ambiguity, _resolve_system_ambiguity", PY), ("assume_tz/assume_system_tz", PY+" class LocalDateTime")],
 observe=("ZonedDateTime()", "SystemDateTime()", "LocalDateTime.assume_tz/assume_system_tz"))

prop("C05", "Calendar arithmetic on DST-aware datetimes keeps the wall clock",
 "Adding years, months, weeks and days to a ZonedDateTime or SystemDateTime shifts the calendar date (months clamped to month end first, then days), keeps the wall-clock time, then resolves it in the timezone with the given disambiguate option, by default keeping the same UTC offset if that is possible and acting as 'compatible' if not. Exact units given in the same call are added after this resolution, and adding only zero calendar units never moves the value.",
 ["inputs", "configurations"], "every start value, calendar and exact delta, timezone and disambiguate option, including targets inside gaps and folds",
 "The result depends on start offset, delta, target day and option together; tests cover a few combinations.",
 [("ZonedDateTime.add/_shift, SystemDateTime.add", PY), ("_resolve_ambiguity_using_prev_offset", PY), ("Date._add_months/_add_days", PY)],
 observe=("ZonedDateTime.add/subtract/+/-", "SystemDateTime.add/subtract/+/-"))

prop("C06", "Date arithmetic follows the Gregorian calendar",
 "Adding years and months to a Date moves the month and clamps the day to the last day of the target month, after which weeks and days are added exactly; subtract is the same with negated units, and days_since/days_until count days exactly. For any two dates the difference a - b is a delta with a single sign whose months and days give back a when added to b (months first), with the months as large as possible. Weekday, month and day-of-year facts agree with the proleptic Gregorian calendar.",
 ["inputs"], "every date from 0001-01-01 to 9999-12-31 and every delta in range, both signs",
 "Month-end, leap-year and century combinations in both signs cannot be sampled completely.",
 [("Date.add/_add_months/_add_days, __sub__, days_since", PY+" class Date")],
 observe=("Date.add/subtract/-/days_since/days_until/day_of_week",))

prop("C07", "TimeDelta is an exact integer count of nanoseconds",
 "A TimeDelta built from any mix of units, and the results of +, -, negation, abs, integer multiplication, //, % and comparison, equal the mathematically exact number of nanoseconds; division and remainder satisfy `a == (a // b) * b + a % b` with the remainder taking the divisor's sign. Decomposition into hours, minutes, seconds and nanoseconds recombines to the same value with one sign, total-unit accessors agree with it, and values beyond the range of a TimeDelta are rejected.",
 ["inputs"], "every combination of units, sizes and signs up to the range limits",
 "Exactness near the limits and for mixed signs needs all magnitudes, tests use small numbers.",
 [("TimeDelta.__init__, arithmetic operators, in_* accessors", PY+" class TimeDelta")],
 observe=("TimeDelta operators and accessors", "hours()...nanoseconds() factories"))

prop("C08", "Calendar deltas keep normalised components with a single sign",
 "DateDelta and DateTimeDelta hold months and days (and exact time) that always share one sign: constructing, parsing or combining deltas so that signs would mix is an error. Years fold into months and weeks into days exactly; addition, subtraction, negation, abs, multiplication, equality, hashing and truth value act on each component, the accessors decompose them without loss, and out-of-range components are rejected.",
 ["inputs"], "every combination of components and signs and all operators between the delta types",
 "Sign and normalisation rules involve all operator/type pairs; tests cover a few of them.",
 [("DateDelta", PY+" class DateDelta"), ("DateTimeDelta", PY+" class DateTimeDelta")],
 observe=("DateDelta and DateTimeDelta constructors, operators, accessors",))

prop("C09", "The common ISO format round-trips every value",
 "For every value of every type, parsing the text its format_common_iso method (or str()) produces gives back exactly the same value, including nanoseconds, offsets with seconds, and the timezone and the right occurrence of a repeated local time. The text has the documented canonical shape: fixed-width fields, no trailing fraction zeros, and a fraction only when it is non-zero. repr() shows the name of the type and that text.",
 ["inputs"], "every value of all twelve types",
 "Round-trip is a property of all values; tests list examples and never combine fraction width, sign, offset and zone.",
 [("format_common_iso / parse_common_iso of each class", PY)],
 observe=("format_common_iso()", "str()", "parse_common_iso()", "repr()"))

prop("C10", "Parsers accept exactly the documented texts and reject the rest cleanly",
 "parse_common_iso of each type accepts exactly the texts of its documented format, with the value they denote, and raises ValueError (InvalidOffset for an offset that the timezone does not have at that time, the zone-not-found error for an unknown timezone) for anything else. No text makes a parser return a value with fields out of range, silently drop or round part of the text, or fail with another exception.",
 ["inputs"], "every text: valid ones, near-misses obtained by editing valid ones, arbitrary strings including non-ASCII digits",
 "The set of near-miss strings is unbounded; tests list some of them per type.",
 [("regular expressions and parse_common_iso of each class", PY)],
 observe=("parse_common_iso()",))

prop("C11", "RFC 3339 and RFC 2822 texts denote the same moment",
 "format_rfc3339 keeps the moment (for offsets of whole minutes) to the nanosecond, format_rfc2822 keeps it to the second, and parsing such a text back gives the same moment and offset. The parsers accept the documented variants with the moment they denote, and raise ValueError for malformed or out-of-range text.",
 ["inputs"], "every Instant and OffsetDateTime, and every text near the two grammars",
 "Only a few texts are tested for each format.",
 [("format_rfc3339/parse_rfc3339/format_rfc2822/parse_rfc2822", PY+" classes Instant and OffsetDateTime")],
 observe=("format_rfc3339/parse_rfc3339/format_rfc2822/parse_rfc2822",))

prop("C12", "Pickling and copying reproduce the value exactly",
 "Unpickling a pickled value, with any protocol, and copy/deepcopy give a value of the same type that is exactly equal and shows the same fields (nanoseconds, offset, timezone, occurrence of a repeated time). Payloads pickled by earlier releases keep loading as the same values; one of a ZonedDateTime whose offset its timezone does not (or no longer) have at that local time raises InvalidOffset.",
 ["inputs", "configurations"], "every value of every type and each pickle protocol",
 "Byte packing has a limit per field; tests pickle one value per type.",
 [("__reduce__ and _unpkl_* functions", PY)],
 observe=("pickle.dumps/loads", "copy.copy/deepcopy"))

prop("C13", "Rounding returns the correct multiple of the increment for every mode",
 "round() on Instant, OffsetDateTime, ZonedDateTime, SystemDateTime, LocalDateTime, Time and TimeDelta gives a multiple of the increment (counted from local midnight, or from zero for TimeDelta): floor and ceil the nearest one below and above, the half modes the nearest one with ties resolved down, up, or to the even multiple. Values on a multiple are unchanged; for DST-aware types the rounded local time is resolved keeping the offset where possible, and unit 'day' gives the start of the same or the next calendar day. Invalid units, modes and increments raise ValueError.",
 ["inputs"], "every value, unit, valid increment and mode, including ties and carries into the next day",
 "Product of values, units, increments and modes; tests take a few per type.",
 [("_round methods, _increment_to_ns, Time._round_unchecked", PY)],
 observe=("round()",))

prop("C14", "No operation yields a value outside the supported range",
 "Every operation that would give a date or moment before 0001-01-01 or after 9999-12-31 (in UTC for the types that denote a moment), a field outside its range, or a delta beyond its limits raises ValueError or OverflowError instead of returning a value, wrapping around, or failing with another error. Values inside the range, up to its very ends, are accepted.",
 ["inputs"], "every operation at and around the ends of the range, with every offset and timezone",
 "Each operation has its own boundary and offsets shift it; tests probe a few.",
 [("_check_utc_bounds, range checks in constructors", PY)],
 observe=("constructors, arithmetic, conversions, rounding, parsing at the boundaries",))

prop("C15", "DST-unsafe and type-mixing operations are refused",
 "Shifting or replacing an OffsetDateTime, rounding it, shifting a LocalDateTime by exact time units, and taking differences of LocalDateTimes raise ImplicitlyIgnoringDST unless ignore_dst=True is given, and the operators that cannot take the flag refuse always. Local and exact types never compare, subtract or add together (TypeError; == is False), and no constructor takes a local time for a moment without a timezone, offset or explicit assume_* call.",
 ["inputs", "programs"], "every operation, every pair of operand types, and every argument form",
 "The full table of operand types times operators is not covered by tests.",
 [("ignore_dst checks", PY+" OffsetDateTime, LocalDateTime"), ("operator overloads returning NotImplemented", PY)],
 observe=("all binary operators between types", "ignore_dst=",))

prop("C16", "Standard-library datetimes convert faithfully both ways",
 "py_datetime, py_date, py_time and py_timedelta give the standard-library value with the same fields, offset, timezone and fold, truncated to microseconds; from_py_datetime/date/time/timedelta accept exactly the values their type can represent, keep the moment and the fields, and raise ValueError otherwise. Going to the standard library and back restores any value that is a whole number of microseconds.",
 ["inputs", "configurations"], "every value, including repeated and skipped local times, aware and naive, and subclasses of the library classes",
 "fold, sub-second offsets, skipped times and subclasses interact; tests use simple values.",
 [("py_datetime/from_py_datetime of each class", PY)],
 observe=("py_*()", "from_py_*()"))

prop("C17", "Patching the current time affects exactly the patched scope",
 "Inside patch_current_time, every way of asking for the current time gives the patched moment, moved by exactly the sum of the shifts made and, when ticking, by the real time elapsed since. On leaving the scope, normally or by exception, nested or as a decorator, the time that was current outside it (the real clock or the enclosing patch) is back.",
 ["histories", "fault_sequences"], "every history of entering, shifting, reading, leaving and exceptions, nested to any depth, with every type of value and both ticking modes",
 "Tests run one patch at a time in a fixed order.",
 [("patch_current_time, _TimePatch", INIT), ("_patch_time_frozen/_patch_time_keep_ticking/_unpatch_time", PY)],
 files=(PY, INIT), state=(("patched clock", "which function supplies the current time", PY+" time_ns"),),
 observe=("Instant.now", "OffsetDateTime.now", "ZonedDateTime.now", "SystemDateTime.now"))

prop("C18", "Day boundaries and ambiguity flags follow the timezone rules",
 "start_of_day gives the first moment of the calendar day in the timezone and day_length the exact time from it to the start of the next day, so that consecutive days tile the timeline. is_ambiguous is true exactly for local times that occur twice in the timezone.",
 ["inputs", "configurations"], "every day in every timezone, with transitions at, before and after midnight, and skipped whole days",
 "Days with unusual transitions are found only by enumerating the timezone database.",
 [("start_of_day, day_length, is_ambiguous", PY+" ZonedDateTime, SystemDateTime")],
 observe=("start_of_day()", "day_length()", "is_ambiguous()"))

prop("C19", "Local and fixed-offset datetimes do pure calendar-and-clock arithmetic",
 "Shifting a LocalDateTime or OffsetDateTime (with ignore_dst where exact units need it) changes the date by the calendar units, clamped at month end, and then adds the exact units with plain carries, keeping the offset; subtract undoes exact shifts, and the difference of two LocalDateTimes is the exact count of nanoseconds on a timeline without DST. Local combination and projection (Date.at, Time.on, date(), time(), replace_date, replace_time) keep every field.",
 ["inputs"], "every datetime and every delta, both signs, all operator forms",
 "Carries across day, month and year boundaries with nanoseconds have unbounded combinations.",
 [("LocalDateTime.add/_shift/difference", PY), ("OffsetDateTime.add/_shift", PY)],
 observe=("LocalDateTime and OffsetDateTime add/subtract/+/-/difference", "Date.at, Time.on, date(), time()"))

prop("C20", "Partial dates stay valid and combine back without loss",
 "YearMonth and MonthDay accept exactly the valid months and month-days (29 February included), order by their fields, and in_year/on_day give the full date or ValueError when it does not exist. year_month and month_day of a Date project its fields, is_leap holds only for 29 February, and replace keeps the other field.",
 ["inputs"], "all year-months, all month-days and all years",
 "The finite but large space is sampled by tests.",
 [("YearMonth, MonthDay", PY), ("Date.year_month, month_day", PY)],
 observe=("YearMonth", "MonthDay", "Date.year_month/month_day"))

prop("C21", "Values are immutable and operations never disturb them",
 "No public operation changes any existing value: after any sequence of calls every earlier value shows the same fields, hash and text, and equal calls give equal results, also when several threads make them at once. Attributes cannot be set or deleted on values.",
 ["histories"], "every sequence of operations over a set of live values, in any order and repeated, by one thread or several",
 "Aliasing and caching faults only show in histories in which a value is used again afterwards.",
 [("_ImmutableBase, __slots__, final classes", PY)],
 observe=("all public operations followed by re-reading the operands",))

prop("C22", "SystemDateTime follows the system timezone in force when it is made",
 "Creating or converting to a SystemDateTime (constructor, now, to_system_tz, assume_system_tz, from_timestamp, add, replace) applies the system timezone in force at the time of the call. Values made earlier keep their moment, local time and offset when the system timezone changes; arithmetic on them afterwards keeps the moment arithmetic exact and uses the new timezone's offset.",
 ["histories", "configurations"], "every history of timezone changes between creation and use, for every pair of zones",
 "Tests set one timezone for a test; few change it between creation and use.",
 [("SystemDateTime: astimezone() at each operation", PY+" class SystemDateTime")],
 state=(("system timezone", "TZ environment variable and tzset state of the process", "C library"),),
 observe=("SystemDateTime operations after TZ changes",))

prop("C23", "replace changes only the named fields",
 "replace, replace_date, replace_time and (for ZonedDateTime) replacing the timezone keep all other fields, and the resulting local time is validated and resolved just as on creation, with the default being to keep the same UTC offset where possible when the timezone is not changed. Replacing fields by their current values changes nothing, and invalid fields or unknown arguments raise ValueError or TypeError and leave no trace.",
 ["inputs", "configurations"], "every value of every type, subset of fields, and disambiguation option",
 "The subsets of fields times disambiguation cases are sampled by tests.",
 [("replace/replace_date/replace_time of each class", PY)],
 observe=("replace()", "replace_date()", "replace_time()"))

prop("C24", "Timestamps identify the moment exactly",
 "timestamp_nanos counts the nanoseconds since 1970-01-01T00:00Z exactly, timestamp_millis and timestamp are its floor in milliseconds and seconds, for every exact type alike. from_timestamp, from_timestamp_millis and from_timestamp_nanos give the moment of that count in the requested timezone or offset, negative and fractional counts included, and raise ValueError, OverflowError or OSError when it is out of range.",
 ["inputs"], "every moment in range, before and after the epoch, for all exact types and units",
 "Negative and sub-unit values at boundaries are infinite in number; tests use a few.",
 [("timestamp*/from_timestamp*", PY)],
 observe=("timestamp/timestamp_millis/timestamp_nanos", "from_timestamp*"))

prop("C25", "strptime denotes what the matched fields say",
 "LocalDateTime.strptime and OffsetDateTime.strptime return the fields that the standard library's strptime reads for the format, require no offset for the former and an offset of whole seconds for the latter, and raise ValueError otherwise. No information is silently dropped and no out-of-range value is returned.",
 ["inputs"], "formats composed of the numeric directives and %z, and texts near them",
 "A few formats are tested.",
 [("LocalDateTime.strptime, OffsetDateTime.strptime", PY)],
 observe=("strptime()",))

prop("C26", "The Rust extension and the pure-Python version behave the same",
 "For every public operation and input the compiled extension returns the same value or raises the same kind of error as the pure-Python implementation. Values pickled by one load in the other.",
 ["inputs", "configurations"], "every public operation and input under both implementations",
 "The suite runs the same examples under both, not all inputs.",
 [("Rust extension", "src/*.rs"), ("pure-Python version", PY)],
 files=(PY, "src/lib.rs"),
 observe=("every public operation",))

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        if not p["anchors"]["state"]: del p["anchors"]["state"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
