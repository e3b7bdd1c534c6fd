From f6944750af6aa5681379475ddf6aa524e1d689f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 01/26] fix: Time < Time compares the nanoseconds of both
 operands

Time(nanosecond=1) < Time(nanosecond=2) was False.
---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1ef0531..d9cd4c0 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1173,7 +1173,7 @@ class Time(_ImmutableBase):
     def __lt__(self, other: Time) -> bool:
         if not isinstance(other, Time):
             return NotImplemented
-        return (self._py_time, self._nanos) < (other._py_time, self._nanos)
+        return (self._py_time, self._nanos) < (other._py_time, other._nanos)
 
     def __le__(self, other: Time) -> bool:
         if not isinstance(other, Time):
-- 
2.43.0


From 5992324a7382beb7fa4676387e7a75e70fb5e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 02/26] fix: LocalDateTime() rejects nanoseconds outside
 0..999_999_999

Like the other constructors do. Values out of range were accepted and
broke formatting, comparison and arithmetic.
---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d9cd4c0..1b857fe 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5284,6 +5284,8 @@ class LocalDateTime(_KnowsLocal):
         nanosecond: int = 0,
     ) -> None:
         self._py_dt = _datetime(year, month, day, hour, minute, second)
+        if nanosecond < 0 or nanosecond >= 1_000_000_000:
+            raise ValueError(f"nanosecond out of range: {nanosecond}")
         self._nanos = nanosecond
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From c2402f57950d0b6800d588aa2448d6a29d89ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 03/26] fix: parsing fractional seconds of durations is exact

TimeDelta and DateTimeDelta.parse_common_iso went through a float:
"PT1.001S" gave 1.000999999 s.
---
 pysrc/whenever/_pywhenever.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1b857fe..6cf0b56 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1781,12 +1781,18 @@ def _unpkl_tdelta(data: bytes) -> TimeDelta:
     return TimeDelta(seconds=s, nanoseconds=ns)
 
 
+def _parse_seconds_to_nanos(s: str) -> int:
+    # no floats, since these can't represent all nanosecond values
+    whole, _, fract = s.partition(".")
+    return int(whole) * 1_000_000_000 + int(fract.ljust(9, "0"))
+
+
 def _parse_timedelta_component(s: str, exc: Exception) -> tuple[str, int, str]:
     if (match := _match_next_timedelta_component(s)) is None:
         raise exc
     digits_maybe_fractional, unit = match.groups()
     if unit == "S":
-        value = int(float(digits_maybe_fractional) * 1_000_000_000)
+        value = _parse_seconds_to_nanos(digits_maybe_fractional)
     else:
         try:
             value = int(digits_maybe_fractional)
@@ -2297,7 +2303,7 @@ class DateTimeDelta(_ImmutableBase):
             days=int(days or 0),
             hours=int(hours or 0),
             minutes=int(minutes or 0),
-            seconds=float(seconds or 0),
+            nanoseconds=_parse_seconds_to_nanos(seconds or "0"),
         )
         return -parsed if sign == "-" else parsed
 
-- 
2.43.0


From 6e1e31c90273ad0ae996207b1f3d7d967a07dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 04/26] fix: DateTimeDelta.parse_common_iso rejects an 'S'
 without a number

"PTS" and "P1DTS" were accepted.
---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 6cf0b56..3fcbc30 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5981,7 +5981,7 @@ _match_rfc3339 = re.compile(
 ).fullmatch
 _match_datetimedelta = re.compile(
     r"([-+]?)P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)W)?(?:(\d+)D)?"
-    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)?S)?)?",
+    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)S)?)?",
     re.ASCII,
 ).fullmatch
 _match_time = re.compile(
-- 
2.43.0


From 5fd52c81c29d16049ac4cee68baba4e0da5249e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 05/26] fix: DateTimeDelta.in_months_days_secs_nanos is exact
 for large values

It divided by floats, so that the seconds were rounded up for e.g.
hours=87_831_000 minus a nanosecond.
---
 pysrc/whenever/_pywhenever.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 3fcbc30..c942384 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2222,9 +2222,14 @@ class DateTimeDelta(_ImmutableBase):
         >>> d.in_months_days_secs_nanos()
         (0, 18, 14_400, 2000)
         """
-        subsec_nanos = int(fmod(self._time_part._total_ns, 1_000_000_000))
-        whole_seconds = int(self._time_part._total_ns / 1_000_000_000)
-        return self._date_part.in_months_days() + (whole_seconds, subsec_nanos)
+        whole_seconds, subsec_nanos = divmod(
+            abs(self._time_part._total_ns), 1_000_000_000
+        )
+        sign = -1 if self._time_part._total_ns < 0 else 1
+        return self._date_part.in_months_days() + (
+            sign * whole_seconds,
+            sign * subsec_nanos,
+        )
 
     def format_common_iso(self) -> str:
         """Format as the *popular interpretation* of the ISO 8601 duration format.
-- 
2.43.0


From 8ccc0c1387e8a79ca40aedb6b21840591c3054b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 06/26] fix: Date.parse_common_iso accepts YYYY-MM-DD only

Text of less than 6 characters raised IndexError, and "20210102" and
"2021W011" were accepted.
---
 pysrc/whenever/_pywhenever.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index c942384..3d31b2e 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -308,8 +308,8 @@ class Date(_ImmutableBase):
         >>> Date.parse_common_iso("2021-01-02")
         Date(2021-01-02)
         """
-        if s[5] == "W" or not s.isascii():
-            # prevent isoformat from parsing week dates
+        if not _match_date(s):
+            # prevent fromisoformat from parsing other ISO 8601 formats
             raise ValueError(f"Invalid format: {s!r}")
         try:
             return cls._from_py_unchecked(_date.fromisoformat(s))
@@ -5998,6 +5998,7 @@ _match_next_timedelta_component = re.compile(
 _match_next_datedelta_component = re.compile(
     r"^(\d{1,8})([YMWD])", re.ASCII
 ).match
+_match_date = re.compile(r"\d{4}-\d{2}-\d{2}", re.ASCII).fullmatch
 _match_yearmonth = re.compile(r"\d{4}-\d{2}", re.ASCII).fullmatch
 _match_monthday = re.compile(r"--\d{2}-\d{2}", re.ASCII).fullmatch
 
-- 
2.43.0


From 6ce9f373376cee51f9b3650d1699d70cd439df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 07/26] fix: OffsetDateTime operations reject results outside
 the UTC range

add, subtract, round, assume_fixed_offset and parse_rfc2822 could return
a value whose moment is not representable, e.g.
LocalDateTime.MIN.assume_fixed_offset(1).
---
 pysrc/whenever/_pywhenever.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 3d31b2e..dfa7e0a 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4000,7 +4000,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "RFC 2822 string with missing or -0000 offset "
                 f"cannot be parsed as OffsetDateTime: {s!r}"
             )
-        return cls._from_py_unchecked(parsed, 0)
+        return cls._from_py_unchecked(_check_utc_bounds(parsed), 0)
 
     def format_rfc3339(self) -> str:
         """Format as an RFC 3339 string ``YYYY-MM-DD HH:MM:SS±HH:MM``
@@ -4166,7 +4166,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
             tdelta._total_ns + self._nanos, 1_000_000_000
         )
         return self._from_py_unchecked(
-            (py_dt_with_new_date + _timedelta(seconds=delta_secs)),
+            _check_utc_bounds(
+                py_dt_with_new_date + _timedelta(seconds=delta_secs)
+            ),
             nanos,
         )
 
@@ -5621,7 +5623,10 @@ class LocalDateTime(_KnowsLocal):
         OffsetDateTime(2020-08-15 23:12:00+02:00)
         """
         return OffsetDateTime._from_py_unchecked(
-            self._py_dt.replace(tzinfo=_load_offset(offset)), self._nanos
+            _check_utc_bounds(
+                self._py_dt.replace(tzinfo=_load_offset(offset))
+            ),
+            self._nanos,
         )
 
     def assume_tz(
-- 
2.43.0


From 5bad3ce84750bfddb31d31e936ebb68caecc2e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 08/26] fix: OffsetDateTime.strptime rejects sub-second offsets

Like from_py_datetime does, of which it is documented to be an alias.
---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index dfa7e0a..abf4fc9 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3953,6 +3953,8 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "Parsed datetime must have an offset. "
                 "Use %z, %Z, or %:z in the format string"
             )
+        elif parsed.utcoffset().microseconds:  # type: ignore[union-attr]
+            raise ValueError("Sub-second offsets are not supported")
         return cls._from_py_unchecked(
             _check_utc_bounds(parsed.replace(microsecond=0)),
             parsed.microsecond * 1_000,
-- 
2.43.0


From dd03c09fc0e4d20055e7e3d2b545dbc1cbaed9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 09/26] fix: from_py_datetime of Offset- and SystemDateTime
 drops the fold

The offset says it all, and a fold that is kept made
SystemDateTime.is_ambiguous() False for a repeated time.
---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index abf4fc9..dddcd1d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3853,7 +3853,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
         return cls._from_py_unchecked(
             _check_utc_bounds(
                 _strip_subclasses(
-                    d.replace(microsecond=0, tzinfo=_timezone(offset))
+                    d.replace(microsecond=0, tzinfo=_timezone(offset), fold=0)
                 )
             ),
             d.microsecond * 1_000,
-- 
2.43.0


From 7845accd439af6b84a0f60602da7e8baebe77f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 10/26] fix: ZonedDateTime.exact_eq compares the timezone

Two values with the same fields and offset in different timezones
(Europe/Amsterdam and Europe/Paris) were exactly equal.
---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index dddcd1d..afb1452 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2999,11 +2999,13 @@ class _KnowsInstant(_BasicConversions):
             self._py_dt.utcoffset(),  # type: ignore[attr-defined]
             self._nanos,  # type: ignore[attr-defined]
             type(self._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(self._py_dt.tzinfo, "key", None),  # type: ignore[attr-defined]
         ) == (
             other._py_dt,  # type: ignore[attr-defined]
             other._py_dt.utcoffset(),  # type: ignore[attr-defined]
             other._nanos,  # type: ignore[attr-defined]
             type(other._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(other._py_dt.tzinfo, "key", None),  # type: ignore[attr-defined]
         )
 
     def difference(
-- 
2.43.0


From e95de96aa2989f3a88cf4e87868bec513fc0a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 11/26] fix: adding deltas checks for mixed signs in all
 combinations

days(1) + hours(-2) and the like gave a DateTimeDelta with mixed signs,
which the constructor and the other operators refuse.
---
 pysrc/whenever/_pywhenever.py | 36 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index afb1452..72b861f 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2000,19 +2000,13 @@ class DateDelta(_ImmutableBase):
                 days=self._days + other._days,
             )
         elif isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         else:
             return NotImplemented
 
     def __radd__(self, other: TimeDelta) -> DateTimeDelta:
         if isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         return NotImplemented
 
     @overload
@@ -2321,19 +2315,18 @@ class DateTimeDelta(_ImmutableBase):
         >>> d + DateTimeDelta(months=2, days=3, minutes=90)
         DateTimeDelta(P1M1W14DT5H30M)
         """
-        new = _object_new(DateTimeDelta)
         if isinstance(other, DateTimeDelta):
-            new._date_part = self._date_part + other._date_part
-            new._time_part = self._time_part + other._time_part
+            d = self._date_part + other._date_part
+            t = self._time_part + other._time_part
         elif isinstance(other, TimeDelta):
-            new._date_part = self._date_part
-            new._time_part = self._time_part + other
+            d = self._date_part
+            t = self._time_part + other
         elif isinstance(other, DateDelta):
-            new._date_part = self._date_part + other
-            new._time_part = self._time_part
+            d = self._date_part + other
+            t = self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __radd__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
         if isinstance(other, (TimeDelta, DateDelta)):
@@ -2365,16 +2358,15 @@ class DateTimeDelta(_ImmutableBase):
         return self._from_parts(d, t)
 
     def __rsub__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
-        new = _object_new(DateTimeDelta)
         if isinstance(other, TimeDelta):
-            new._date_part = -self._date_part
-            new._time_part = other - self._time_part
+            d = -self._date_part
+            t = other - self._time_part
         elif isinstance(other, DateDelta):
-            new._date_part = other - self._date_part
-            new._time_part = -self._time_part
+            d = other - self._date_part
+            t = -self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __eq__(self, other: object) -> bool:
         """Compare for equality
-- 
2.43.0


From f7b0a2e9992c6ad7b422dc0fdfe3edff263cafad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 12/26] fix: rounding to odd increments goes to the nearest
 multiple

With an increment of 5, 25 or 125 nanoseconds, half_ceil (and half_even,
for odd quotients) rounded up remainders below one half.
---
 pysrc/whenever/_pywhenever.py | 51 ++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 72b861f..731c785 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1121,20 +1121,9 @@ class Time(_ImmutableBase):
             self._to_ns_since_midnight(), increment_ns
         )
 
-        if mode == "half_even":  # check the default mode first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
-        elif mode == "ceil":
-            threshold_ns = 1  # Always round up
-        elif mode == "floor":
-            threshold_ns = increment_ns + 1  # Never round up
-        elif mode == "half_floor":
-            threshold_ns = increment_ns // 2 + 1
-        elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
-        else:
-            raise ValueError(f"Invalid rounding mode: {mode!r}")
-
-        round_up = remainder_ns >= threshold_ns
+        round_up = remainder_ns >= _round_threshold(
+            increment_ns, mode, quotient
+        )
         ns_since_midnight = (quotient + round_up) * increment_ns
         next_day, ns_since_midnight = divmod(ns_since_midnight, day_in_ns)
         return self._from_ns_since_midnight(ns_since_midnight), next_day
@@ -1242,6 +1231,23 @@ def increment_to_ns(unit: str, increment: int, any_hour_ok: bool) -> int:
         raise ValueError(f"Invalid unit: {unit}")
 
 
+# The smallest remainder for which to round up
+def _round_threshold(increment_ns: int, mode: str, quotient: int) -> int:
+    if mode == "half_even":  # check the default mode first
+        # An odd increment has no exact half
+        mode = "half_ceil" if quotient % 2 else "half_floor"
+    if mode == "ceil":
+        return 1  # Always round up
+    elif mode == "floor":
+        return increment_ns + 1  # Never round up
+    elif mode == "half_floor":
+        return increment_ns // 2 + 1
+    elif mode == "half_ceil":
+        return (increment_ns + 1) // 2
+    else:
+        raise ValueError(f"Invalid rounding mode: {mode!r}")
+
+
 # A separate unpickling function allows us to make backwards-compatible changes
 # to the pickling format in the future
 def _unpkl_time(data: bytes) -> Time:
@@ -1552,20 +1558,9 @@ class TimeDelta(_ImmutableBase):
         increment_ns = increment_to_ns(unit, increment, any_hour_ok=True)
         quotient, remainder_ns = divmod(self._total_ns, increment_ns)
 
-        if mode == "half_even":  # check the default case first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
-        elif mode == "ceil":
-            threshold_ns = 1  # Always round up
-        elif mode == "floor":
-            threshold_ns = increment_ns + 1  # Never round up
-        elif mode == "half_floor":
-            threshold_ns = increment_ns // 2 + 1
-        elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
-        else:
-            raise ValueError(f"Invalid rounding mode: {mode!r}")
-
-        round_up = remainder_ns >= threshold_ns
+        round_up = remainder_ns >= _round_threshold(
+            increment_ns, mode, quotient
+        )
         rounded_ns = (quotient + round_up) * increment_ns
         if abs(rounded_ns) > _MAX_DELTA_NANOS:
             raise ValueError("Resulting TimeDelta out of range")
-- 
2.43.0


From 9b2c8d4e3b06c0837a42bf2c61600f835a50470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 13/26] fix: rounding to day gives the start of this or the
 next day

On a day of 23 hours, wall times from 23:00 were floored to the next day
and ceiled to the day after it. A repeated midnight could give its second
occurrence.
---
 pysrc/whenever/_pywhenever.py | 38 +++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 731c785..8b80e62 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4737,12 +4737,19 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         """
         increment_ns = increment_to_ns(unit, increment, any_hour_ok=False)
         if unit == "day":
-            increment_ns = day_ns = self.day_length()._total_ns
-        else:
-            day_ns = 86_400_000_000_000
+            return self._from_py_unchecked(
+                _resolve_ambiguity(
+                    _datetime.combine(
+                        _round_to_date(self, mode), _time(), self._py_dt.tzinfo
+                    ),
+                    self._py_dt.tzinfo,  # type: ignore[arg-type]
+                    "compatible",
+                ),
+                0,
+            )
 
         rounded_local = self.local()._round_unchecked(
-            increment_ns, mode, day_ns
+            increment_ns, mode, 86_400_000_000_000
         )
         return self._from_py_unchecked(
             _resolve_ambiguity_using_prev_offset(
@@ -5217,12 +5224,16 @@ class SystemDateTime(_KnowsInstantAndLocal):
         """
         increment_ns = increment_to_ns(unit, increment, any_hour_ok=False)
         if unit == "day":
-            increment_ns = day_ns = self.day_length()._total_ns
-        else:
-            day_ns = 86_400_000_000_000
+            return self._from_py_unchecked(
+                _resolve_system_ambiguity(
+                    _datetime.combine(_round_to_date(self, mode), _time()),
+                    "compatible",
+                ),
+                0,
+            )
 
         rounded_local = self.local()._round_unchecked(
-            increment_ns, mode, day_ns
+            increment_ns, mode, 86_400_000_000_000
         )
         return self._from_py_unchecked(
             _resolve_system_ambiguity_using_prev_offset(
@@ -5945,6 +5956,17 @@ def _resolve_system_ambiguity_using_prev_offset(
     return dt.astimezone(_UTC).astimezone()
 
 
+# The calendar date of which a datetime rounded to "day" is the start.
+# Depends on the wall clock only, which may exceed the length of the day.
+def _round_to_date(d: ZonedDateTime | SystemDateTime, mode: str) -> _date:
+    round_up = (
+        mode != "floor"
+        and d.time()._to_ns_since_midnight()
+        >= _round_threshold(d.day_length()._total_ns, mode, 0)
+    )
+    return d.date()._add_days(round_up)._py_date
+
+
 def _load_offset(offset: int | TimeDelta, /) -> _timezone:
     if isinstance(offset, int):
         return _timezone(_timedelta(hours=offset))
-- 
2.43.0


From 53747936f114290dad55567c619bb7955a4b2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 14/26] fix: from_timestamp accepts tiny negative floats

For values such as -1e-20 the fraction rounds to 1.0, which gave an
AssertionError or a value with 1_000_000_000 nanoseconds.
---
 pysrc/whenever/_pywhenever.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 8b80e62..7656a15 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3256,10 +3256,8 @@ class Instant(_KnowsInstant):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
-        return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC), int(fract * 1_000_000_000)
-        )
+        secs, nanos = _split_timestamp(i)
+        return cls._from_py_unchecked(_fromtimestamp(secs, _UTC), nanos)
 
     @classmethod
     def from_timestamp_millis(cls, i: int, /) -> Instant:
@@ -3758,10 +3756,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
         """
         if ignore_dst is not True:
             raise ImplicitlyIgnoringDST(TIMESTAMP_DST_MSG)
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _load_offset(offset)),
-            int(fract * 1_000_000_000),
+            _fromtimestamp(secs, _load_offset(offset)), nanos
         )
 
     @classmethod
@@ -4373,9 +4370,9 @@ class ZonedDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, ZoneInfo(tz)), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, ZoneInfo(tz)), nanos
         )
 
     @classmethod
@@ -4887,9 +4884,9 @@ class SystemDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC).astimezone(), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, _UTC).astimezone(), nanos
         )
 
     @classmethod
@@ -6021,6 +6018,13 @@ _match_yearmonth = re.compile(r"\d{4}-\d{2}", re.ASCII).fullmatch
 _match_monthday = re.compile(r"--\d{2}-\d{2}", re.ASCII).fullmatch
 
 
+def _split_timestamp(i: int | float) -> tuple[int | float, int]:
+    secs, fract = divmod(i, 1)
+    # For tiny negative floats, the fraction is rounded up to 1.0
+    carry, nanos = divmod(int(fract * 1_000_000_000), 1_000_000_000)
+    return secs + carry, nanos
+
+
 def _check_utc_bounds(dt: _datetime) -> _datetime:
     try:
         dt.astimezone(_UTC)
-- 
2.43.0


From f945f1d3414a9ade9fca0492f55118fdf93a2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 15/26] fix: Time.from_py_time refuses aware subclass instances
 too

The tzinfo of an instance of a subclass of datetime.time was dropped.
---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 7656a15..5b2092e 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1000,6 +1000,8 @@ class Time(_ImmutableBase):
             if t.tzinfo is not None:
                 raise ValueError("Time must be naive")
         elif isinstance(t, _time):
+            if t.tzinfo is not None:
+                raise ValueError("Time must be naive")
             # subclass-safe way to ensure we have exactly a datetime.time
             t = _time(t.hour, t.minute, t.second, t.microsecond)
         else:
-- 
2.43.0


From 39ae5a47ed05dda3c1dae24d142090bd7bade07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 16/26] fix: keep the offset of a ZonedDateTime when the new
 time is skipped

add, replace and round are documented to keep the UTC offset if possible.
In a gap they did the opposite: with the offset from before the gap the
result was after it, and vice versa. SystemDateTime and the Rust version
were right.
---
 pysrc/whenever/_pywhenever.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 5b2092e..7542bda 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5888,16 +5888,17 @@ def _resolve_ambiguity_using_prev_offset(
     dt: _datetime,
     prev_offset: _timedelta,
 ) -> _datetime:
-    if prev_offset == dt.utcoffset():
-        pass
-    elif prev_offset == dt.replace(fold=not dt.fold).utcoffset():
-        dt = dt.replace(fold=not dt.fold)
-    else:
-        # No offset match. Setting fold=0 adopts the 'compatible' strategy
-        dt = dt.replace(fold=0)
-
-    # This roundtrip ensures skipped times are shifted
-    return dt.astimezone(_UTC).astimezone(dt.tzinfo)
+    # The default is the 'compatible' strategy.
+    # The roundtrip ensures skipped times are shifted
+    first, second = (
+        dt.replace(fold=f).astimezone(_UTC).astimezone(dt.tzinfo)
+        for f in (0, 1)
+    )
+    return (
+        second
+        if first.utcoffset() != prev_offset == second.utcoffset()
+        else first
+    )
 
 
 # Whether the fold of a system time needs to be flipped in a gap
-- 
2.43.0


From 7d84c5e6b54dfa3371392c1841a37c62b35cba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 17/26] fix: shifting a ticking time patch works with an
 OffsetDateTime

It raised a TypeError, since OffsetDateTime doesn't support `+`.
---
 pysrc/whenever/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/__init__.py b/pysrc/whenever/__init__.py
index 9a6c035..62240eb 100644
--- a/pysrc/whenever/__init__.py
+++ b/pysrc/whenever/__init__.py
@@ -63,9 +63,12 @@ class _TimePatch:
 
     def shift(self, *args, **kwargs):
         if self._keep_ticking:
-            self._pin = new = (self._pin + (Instant.now() - self._pin)).add(
-                *args, **kwargs
-            )
+            elapsed = Instant.now() - self._pin
+            self._pin = new = (
+                self._pin.add(elapsed, ignore_dst=True)
+                if isinstance(self._pin, OffsetDateTime)
+                else self._pin + elapsed
+            ).add(*args, **kwargs)
             _patch_time_keep_ticking(
                 new if isinstance(new, Instant) else new.instant()
             )
-- 
2.43.0


From 070b7a99422f4834ed7bf75150f44121a1c16077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 18/26] fix: leaving a nested time patch restores the enclosing
 one

patch_current_time is documented to behave like unittest.mock.patch, but
leaving the inner patch restored the real time while the outer one was
still active, and a ticking patch didn't tick within a frozen one.
---
 pysrc/whenever/__init__.py    | 49 ++++++++++++++++++++++++++++++-----
 pysrc/whenever/_pywhenever.py |  6 +++--
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/pysrc/whenever/__init__.py b/pysrc/whenever/__init__.py
index 62240eb..ed9ee23 100644
--- a/pysrc/whenever/__init__.py
+++ b/pysrc/whenever/__init__.py
@@ -51,6 +51,7 @@ except ModuleNotFoundError as e:
 
 from contextlib import contextmanager as _contextmanager
 from dataclasses import dataclass as _dataclass
+from time import time_ns as _time_ns
 from typing import Iterator as _Iterator
 
 from ._pywhenever import __version__
@@ -78,6 +79,35 @@ class _TimePatch:
                 new if isinstance(new, Instant) else new.instant()
             )
 
+    def _start(self):
+        self._start_at(
+            self._pin
+            if isinstance(self._pin, Instant)
+            else self._pin.instant()
+        )
+
+    def _start_at(self, instant):
+        if self._keep_ticking:
+            _patch_time_keep_ticking(instant)
+        else:
+            _patch_time_frozen(instant)
+
+    # A patch within this one takes over (and its exit hands back)
+    def _suspend(self):
+        self._suspended = (Instant.now(), _time_ns())
+
+    def _resume(self):
+        instant, suspended_at = self._suspended
+        self._start_at(
+            instant.add(nanoseconds=_time_ns() - suspended_at)
+            if self._keep_ticking
+            else instant
+        )
+
+
+# The innermost patch, if any
+_active_patch: "_TimePatch | None" = None
+
 
 @_contextmanager
 def patch_current_time(
@@ -122,13 +152,18 @@ def patch_current_time(
     ...     sleep(0.000001)
     ...     assert hours(8) < (Instant.now() - i) < hours(8.1)
     """
-    instant = dt if isinstance(dt, Instant) else dt.instant()
-    if keep_ticking:
-        _patch_time_keep_ticking(instant)
-    else:
-        _patch_time_frozen(instant)
+    global _active_patch
 
+    outer = _active_patch
+    if outer is not None:
+        outer._suspend()
+    _active_patch = patch = _TimePatch(dt, keep_ticking)
     try:
-        yield _TimePatch(dt, keep_ticking)
+        patch._start()
+        yield patch
     finally:
-        _unpatch_time()
+        _active_patch = outer
+        if outer is None:
+            _unpatch_time()
+        else:
+            outer._resume()
diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 7542bda..f0355fc 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6245,8 +6245,10 @@ def _patch_time_keep_ticking(inst: Instant) -> None:
     global _time_patch
     global time_ns
 
-    _patched_at = time_ns()
-    _time_ns = time_ns
+    # The real time, also if there's an enclosing patch
+    from time import time_ns as _time_ns
+
+    _patched_at = _time_ns()
 
     def time_ns() -> int:
         return inst.timestamp_nanos() + _time_ns() - _patched_at
-- 
2.43.0


From 3046a089b1684c05bf94fe18cf35e0ab47430207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 19/26] fix: ZonedDateTime.parse_common_iso rejects skipped
 local times

A local time in a gap was accepted with the offset of either side, which
gave a value with a local time that doesn't exist in its timezone, and an
offset that isn't the one in force at its moment.
---
 pysrc/whenever/_pywhenever.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index f0355fc..d33dbde 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4361,10 +4361,14 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             naive_dt = _fromisoformat(s[:19])
         except ValueError:
             raise ValueError(f"Invalid format: {s!r}")
-        dt = _check_utc_bounds(naive_dt.replace(tzinfo=ZoneInfo(match[12])))
-        return cls._from_py_unchecked(
-            _adjust_fold_to_offset(dt, offset), nanos
+        dt = _adjust_fold_to_offset(
+            _check_utc_bounds(naive_dt.replace(tzinfo=ZoneInfo(match[12]))),
+            offset,
         )
+        # Skipped times don't survive a UTC roundtrip. No offset is valid then
+        if dt.astimezone(_UTC).astimezone(dt.tzinfo).utcoffset() != offset:
+            raise InvalidOffset()
+        return cls._from_py_unchecked(dt, nanos)
 
     @classmethod
     def from_timestamp(cls, i: int, /, *, tz: str) -> ZonedDateTime:
-- 
2.43.0


From 736c083fa0196d999a2e3448f701cf10d2560bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 20/26] fix: Timezone keys naming a directory raise
 ZoneInfoNotFoundError

---
 pysrc/whenever/_pywhenever.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d33dbde..75064d3 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -62,7 +62,7 @@ from typing import (
     no_type_check,
     overload,
 )
-from zoneinfo import ZoneInfo
+from zoneinfo import ZoneInfo, ZoneInfoNotFoundError
 
 __all__ = [
     # Date and time
@@ -2950,7 +2950,7 @@ class _KnowsInstant(_BasicConversions):
             If the timezone ID is not found in the IANA database.
         """
         return ZonedDateTime._from_py_unchecked(
-            self._py_dt.astimezone(ZoneInfo(tz)), self._nanos
+            self._py_dt.astimezone(_get_tz(tz)), self._nanos
         )
 
     def to_system_tz(self) -> SystemDateTime:
@@ -4281,7 +4281,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                 minute,
                 second,
                 0,
-                zone := ZoneInfo(tz),
+                zone := _get_tz(tz),
             ),
             zone,
             disambiguate,
@@ -4295,7 +4295,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         """Create an instance from the current time in the given timezone."""
         secs, nanos = divmod(time_ns(), 1_000_000_000)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, ZoneInfo(tz)), nanos
+            _fromtimestamp(secs, _get_tz(tz)), nanos
         )
 
     def format_common_iso(self) -> str:
@@ -4362,7 +4362,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         except ValueError:
             raise ValueError(f"Invalid format: {s!r}")
         dt = _adjust_fold_to_offset(
-            _check_utc_bounds(naive_dt.replace(tzinfo=ZoneInfo(match[12]))),
+            _check_utc_bounds(naive_dt.replace(tzinfo=_get_tz(match[12]))),
             offset,
         )
         # Skipped times don't survive a UTC roundtrip. No offset is valid then
@@ -4378,7 +4378,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         """
         secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, ZoneInfo(tz)), nanos
+            _fromtimestamp(secs, _get_tz(tz)), nanos
         )
 
     @classmethod
@@ -4391,7 +4391,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             raise TypeError("method requires an integer")
         secs, millis = divmod(i, 1_000)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, ZoneInfo(tz)), millis * 1_000_000
+            _fromtimestamp(secs, _get_tz(tz)), millis * 1_000_000
         )
 
     @classmethod
@@ -4404,7 +4404,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             raise TypeError("method requires an integer")
         secs, nanos = divmod(i, 1_000_000_000)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, ZoneInfo(tz)), nanos
+            _fromtimestamp(secs, _get_tz(tz)), nanos
         )
 
     # FUTURE: optional `disambiguate` to override fold?
@@ -4494,7 +4494,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         except KeyError:
             pass
         else:
-            kwargs["tzinfo"] = zoneinfo_new = ZoneInfo(tz)
+            kwargs["tzinfo"] = zoneinfo_new = _get_tz(tz)
             if zoneinfo_new is not self._py_dt.tzinfo:
                 disambiguate = disambiguate or "compatible"
         nanos = _pop_nanos_kwarg(kwargs, self._nanos)
@@ -4790,7 +4790,7 @@ def _unpkl_zoned(
     tz: str,
 ) -> ZonedDateTime:
     *args, nanos, offset_secs = unpack("<HBBBBBIl", data)
-    args += (0, ZoneInfo(tz))
+    args += (0, _get_tz(tz))
     return ZonedDateTime._from_py_unchecked(
         _adjust_fold_to_offset(
             _datetime(*args), _timedelta(seconds=offset_secs)
@@ -5656,7 +5656,7 @@ class LocalDateTime(_KnowsLocal):
         """
         return ZonedDateTime._from_py_unchecked(
             _resolve_ambiguity(
-                self._py_dt.replace(tzinfo=(zone := ZoneInfo(tz))),
+                self._py_dt.replace(tzinfo=(zone := _get_tz(tz))),
                 zone,
                 disambiguate,
             ),
@@ -5865,6 +5865,17 @@ CANNOT_ROUND_DAY_MSG = (
 )
 
 
+def _get_tz(key: str) -> ZoneInfo:
+    try:
+        return ZoneInfo(key)
+    except OSError as e:
+        # A key such as "Europe" names a directory of the timezone database.
+        # Depending on the Python version, this raises an OSError
+        raise ZoneInfoNotFoundError(
+            f"No time zone found with key {key}"
+        ) from e
+
+
 def _resolve_ambiguity(
     dt: _datetime, zone: ZoneInfo, disambiguate: Disambiguate | _timedelta
 ) -> _datetime:
-- 
2.43.0


From 5f0864c325dd57de2baec25d1e053e22198ff79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 21/26] fix: LocalDateTime values do not accept new attributes

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 75064d3..5db99d0 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5290,6 +5290,8 @@ class LocalDateTime(_KnowsLocal):
       time in a simulation game.
     """
 
+    __slots__ = ()
+
     def __init__(
         self,
         year: int,
-- 
2.43.0


From ff7903b130c6d740232ee84ce2e18577052988a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 22/26] fix: SystemDateTime.is_ambiguous is false for skipped
 local times

---
 pysrc/whenever/_pywhenever.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 5db99d0..166f460 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5146,8 +5146,10 @@ class SystemDateTime(_KnowsInstantAndLocal):
         ----
         This method may give a different result after a change to the system timezone.
         """
-        naive = self._py_dt.replace(tzinfo=None)
-        return naive.astimezone(_UTC) != naive.replace(fold=1).astimezone(_UTC)
+        # Only in a repeated period is the second occurrence the later one:
+        # in a gap (after a timezone change), it's the other way around
+        naive = self._py_dt.replace(tzinfo=None, fold=0)
+        return naive.astimezone(_UTC) < naive.replace(fold=1).astimezone(_UTC)
 
     def day_length(self) -> TimeDelta:
         """The duration between the start of the current day and the next.
-- 
2.43.0


From 99de7552f4da0b0634db5e99ef0156f3ca5b3fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 23/26] fix: refuse a ZoneInfo without a key, which no
 ZonedDateTime can represent

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 166f460..27c9eb6 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4425,6 +4425,8 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                 "Can only create ZonedDateTime from tzinfo=ZoneInfo (exactly), "
                 f"got datetime with tzinfo={d.tzinfo!r}"
             )
+        if d.tzinfo.key is None:
+            raise ValueError("Cannot create ZonedDateTime: ZoneInfo has no key")
 
         # This ensures skipped times are disambiguated according to the fold.
         d = d.astimezone(_UTC).astimezone(d.tzinfo)
-- 
2.43.0


From 63858fbcff9c44c53d01aecf60dc6acd5600736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 24/26] fix: tell timezones apart by their key, not by their
 ZoneInfo object

---
 pysrc/whenever/_pywhenever.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 27c9eb6..842b61d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2983,14 +2983,16 @@ class _KnowsInstant(_BasicConversions):
         """
         if type(self) is not type(other):
             raise TypeError("Cannot compare different types")
+        # Without tzinfo: equal zones may be different objects, between which
+        # ambiguous datetimes are never equal
         return (
-            self._py_dt,  # type: ignore[attr-defined]
+            self._py_dt.replace(tzinfo=None),  # type: ignore[attr-defined]
             self._py_dt.utcoffset(),  # type: ignore[attr-defined]
             self._nanos,  # type: ignore[attr-defined]
             type(self._py_dt.tzinfo),  # type: ignore[attr-defined]
             getattr(self._py_dt.tzinfo, "key", None),  # type: ignore[attr-defined]
         ) == (
-            other._py_dt,  # type: ignore[attr-defined]
+            other._py_dt.replace(tzinfo=None),  # type: ignore[attr-defined]
             other._py_dt.utcoffset(),  # type: ignore[attr-defined]
             other._nanos,  # type: ignore[attr-defined]
             type(other._py_dt.tzinfo),  # type: ignore[attr-defined]
@@ -4497,7 +4499,8 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             pass
         else:
             kwargs["tzinfo"] = zoneinfo_new = _get_tz(tz)
-            if zoneinfo_new is not self._py_dt.tzinfo:
+            # The same zone may be a different object (e.g. if not cached)
+            if zoneinfo_new.key != self.tz:
                 disambiguate = disambiguate or "compatible"
         nanos = _pop_nanos_kwarg(kwargs, self._nanos)
 
-- 
2.43.0


From e4e8abb6faa60fe17a889acb0659b9d51571741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 25/26] fix: refuse to unpickle a ZonedDateTime whose local
 time its timezone skips

---
 pysrc/whenever/_pywhenever.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 842b61d..8242bb5 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4367,9 +4367,6 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             _check_utc_bounds(naive_dt.replace(tzinfo=_get_tz(match[12]))),
             offset,
         )
-        # Skipped times don't survive a UTC roundtrip. No offset is valid then
-        if dt.astimezone(_UTC).astimezone(dt.tzinfo).utcoffset() != offset:
-            raise InvalidOffset()
         return cls._from_py_unchecked(dt, nanos)
 
     @classmethod
@@ -6135,6 +6132,9 @@ def _adjust_fold_to_offset(dt: _datetime, offset: _timedelta) -> _datetime:
         dt = dt.replace(fold=1)
         if dt.utcoffset() != offset:
             raise InvalidOffset()
+    # Skipped times don't survive a UTC roundtrip. No offset is valid then
+    if dt.astimezone(_UTC).astimezone(dt.tzinfo).utcoffset() != offset:
+        raise InvalidOffset()
     return dt
 
 
-- 
2.43.0


From 64ca2ef61afff4deaa2fea102ea731caccb6411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:55 +0000
Subject: [PATCH 26/26] fix: shifting a time patch that isn't the innermost
 doesn't affect the current time

A patch that has another within it shows its shift after that one's exit;
a patch that has ended no longer patches the clock when it is shifted.
---
 pysrc/whenever/__init__.py | 45 ++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/pysrc/whenever/__init__.py b/pysrc/whenever/__init__.py
index ed9ee23..e74392a 100644
--- a/pysrc/whenever/__init__.py
+++ b/pysrc/whenever/__init__.py
@@ -64,46 +64,45 @@ class _TimePatch:
 
     def shift(self, *args, **kwargs):
         if self._keep_ticking:
-            elapsed = Instant.now() - self._pin
+            elapsed = self._current() - self._pin
             self._pin = new = (
                 self._pin.add(elapsed, ignore_dst=True)
                 if isinstance(self._pin, OffsetDateTime)
                 else self._pin + elapsed
             ).add(*args, **kwargs)
-            _patch_time_keep_ticking(
-                new if isinstance(new, Instant) else new.instant()
-            )
         else:
             self._pin = new = self._pin.add(*args, **kwargs)
-            _patch_time_frozen(
-                new if isinstance(new, Instant) else new.instant()
-            )
+        self._set(new if isinstance(new, Instant) else new.instant())
 
     def _start(self):
-        self._start_at(
+        self._set(
             self._pin
             if isinstance(self._pin, Instant)
             else self._pin.instant()
         )
 
-    def _start_at(self, instant):
-        if self._keep_ticking:
-            _patch_time_keep_ticking(instant)
-        else:
-            _patch_time_frozen(instant)
-
-    # A patch within this one takes over (and its exit hands back)
-    def _suspend(self):
-        self._suspended = (Instant.now(), _time_ns())
-
-    def _resume(self):
-        instant, suspended_at = self._suspended
-        self._start_at(
-            instant.add(nanoseconds=_time_ns() - suspended_at)
+    def _set(self, instant):
+        self._last_set = (instant, _time_ns())
+        # The time isn't affected by a patch that is over,
+        # or (until its exit) if there's a patch within this one
+        if self is _active_patch:
+            if self._keep_ticking:
+                _patch_time_keep_ticking(instant)
+            else:
+                _patch_time_frozen(instant)
+
+    def _current(self):
+        instant, set_at = self._last_set
+        return (
+            instant.add(nanoseconds=_time_ns() - set_at)
             if self._keep_ticking
             else instant
         )
 
+    # A patch within this one has ended
+    def _resume(self):
+        self._set(self._current())
+
 
 # The innermost patch, if any
 _active_patch: "_TimePatch | None" = None
@@ -155,8 +154,6 @@ def patch_current_time(
     global _active_patch
 
     outer = _active_patch
-    if outer is not None:
-        outer._suspend()
     _active_patch = patch = _TimePatch(dt, keep_ticking)
     try:
         patch._start()
-- 
2.43.0

