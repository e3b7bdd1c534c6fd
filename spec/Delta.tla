-------------------------------- MODULE Delta --------------------------------
(* Durations.  TimeDelta: a span; DateDelta: months and days;               *)
(* DateTimeDelta: both.  Units are given as a KW: a sequence of ten bigs    *)
(* (years months weeks days hours minutes seconds millis micros nanos).     *)
EXTENDS Values

MAXDAYS == 3659634      \* 9999 * 366
MAXMONTHS == 119988     \* 9999 * 12

KwBig(kw, i) == <<kw[i][1], Tail(kw[i])>>

SpanOK(sp) ==
  IF sp = <<>> THEN FALSE
  ELSE IF sp[1] < 0 THEN SpanLE(<<-MAXDAYS, 0, 0>>, sp)
  ELSE SpanLE(sp, <<MAXDAYS, 0, 0>>)
MkTD(sp) == IF SpanOK(sp) THEN V("TD", sp) ELSE ValueErr
TDOfBig(b) == MkTD(BigToSpan(b))

BHOUR == BMul(Big(3600), BGIGA)
BMINUTE == BMul(Big(60), BGIGA)
BMILLI == Big(1000000)
BMICRO == Big(1000)

\* the exact units of a KW as a big number of nanoseconds
KwNanos(kw) ==
  BAdd(BAdd(BAdd(BMul(KwBig(kw, 5), BHOUR), BMul(KwBig(kw, 6), BMINUTE)),
            BAdd(BMul(KwBig(kw, 7), BGIGA), BMul(KwBig(kw, 8), BMILLI))),
       BAdd(BMul(KwBig(kw, 9), BMICRO), KwBig(kw, 10)))
KwMonths(kw) == BAdd(BMul(KwBig(kw, 1), Big(12)), KwBig(kw, 2))
KwDays(kw) == BAdd(BMul(KwBig(kw, 3), Big(7)), KwBig(kw, 4))
Clamp(b) == IF BIsSmall(b) /\ Abs(BSmall(b)) < 100000000 THEN BSmall(b) ELSE b[1] * 100000000

\* same sign, or one of them zero
SameSign(a, b) == a = 0 \/ b = 0 \/ Sgn(a) = Sgn(b)

MkDD(mo, d) ==
  IF Abs(mo) > MAXMONTHS \/ Abs(d) > MAXDAYS \/ ~SameSign(mo, d) THEN ValueErr
  ELSE V("DD", <<mo, d>>)
MkDTD(mo, d, sp) ==
  IF IsErr(MkDD(mo, d)) \/ ~SpanOK(sp) THEN ValueErr
  ELSE IF SameSign(mo, SpanSgn(sp)) /\ SameSign(d, SpanSgn(sp)) THEN V("DTD", <<mo, d>> \o sp)
  ELSE ValueErr

\* any delta as <<months, days, span>>
Parts(v) ==
  CASE v.t = "TD" -> <<0, 0, v.n>>
    [] v.t = "DD" -> <<v.n[1], v.n[2], SpanZero>>
    [] v.t = "DTD" -> <<v.n[1], v.n[2], SubSeq(v.n, 3, 5)>>
IsDelta(v) == v.t \in {"TD", "DD", "DTD"}

NewTD(kw) == TDOfBig(KwNanos(kw))
NewDD(kw) == MkDD(Clamp(KwMonths(kw)), Clamp(KwDays(kw)))
NewDTD(kw) == MkDTD(Clamp(KwMonths(kw)), Clamp(KwDays(kw)), BigToSpan(KwNanos(kw)))

DeltaAdd(a, b) ==
  LET p == Parts(a)  q == Parts(b)
      mo == p[1] + q[1]  d == p[2] + q[2]  sp == SpanAdd(p[3], q[3])
  IN IF a.t = "TD" /\ b.t = "TD" THEN MkTD(sp)
     ELSE IF a.t = "DD" /\ b.t = "DD" THEN MkDD(mo, d)
     ELSE MkDTD(mo, d, sp)

DeltaNeg(a) ==
  LET p == Parts(a)
  IN CASE a.t = "TD" -> V("TD", SpanNeg(a.n))
       [] a.t = "DD" -> V("DD", <<-p[1], -p[2]>>)
       [] a.t = "DTD" -> V("DTD", <<-p[1], -p[2]>> \o SpanNeg(p[3]))

DeltaSgn(a) ==
  LET p == Parts(a)
  IN IF p[1] < 0 \/ p[2] < 0 \/ SpanSgn(p[3]) < 0 THEN -1
     ELSE IF p[1] > 0 \/ p[2] > 0 \/ SpanSgn(p[3]) > 0 THEN 1 ELSE 0
DeltaAbs(a) == IF DeltaSgn(a) < 0 THEN DeltaNeg(a) ELSE a

DeltaMul(a, k) ==   \* k a big
  LET p == Parts(a)
      mo == Clamp(BMul(Big(p[1]), k))
      d == Clamp(BMul(Big(p[2]), k))
      sp == BigToSpan(BMul(SpanToBig(p[3]), k))
  IN CASE a.t = "TD" -> MkTD(sp)
       [] a.t = "DD" -> MkDD(mo, d)
       [] a.t = "DTD" -> MkDTD(mo, d, sp)

----------------------------------------------------------------------------
(* Floor division of spans with a large quotient: <<q, r>> is the answer    *)
(* iff  a = q*b + r  and  r is between 0 and b (b excluded)                 *)
IsFloorDiv(a, b, q, r) ==
  /\ BAdd(BMul(q, b), r) = a
  /\ r[1] = 0 \/ r[1] = b[1]
  /\ BCmp(BAbs(r), BAbs(b)) < 0

\* magnitude division of limb sequences by long division, digit by binary search
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==   \* largest q in lo..hi with q*b <= r
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MagCmp(Trim(MagMul(NatLimbs(mid), b)), r) <= 0
          THEN QDigit(r, b, mid, hi) ELSE QDigit(r, b, lo, mid - 1)
MagDiv(a, b) ==   \* <<quotient, remainder>>
  LET Step(acc, x) ==
        LET r == Trim(<<x>> \o acc[2])
            q == IF MagCmp(r, b) < 0 THEN 0 ELSE QDigit(r, b, 1, 999)
        IN <<<<q>> \o acc[1], IF q = 0 THEN r ELSE MagSub(r, Trim(MagMul(NatLimbs(q), b)))>>
      res == FoldLeft(Step, <<<<>>, <<>>>>, Reverse(a))
  IN <<Trim(res[1]), res[2]>>
\* floor division of bigs: <<quotient, remainder>>
BFloorDiv(a, b) ==
  LET qr == MagDiv(a[2], b[2])
      q == MkBig(a[1] * b[1], qr[1])
      r == MkBig(a[1], qr[2])
  IN IF r = BZero THEN <<IF a[1] = 0 THEN BZero ELSE q, BZero>>
     ELSE IF a[1] = b[1] THEN <<q, r>>
     ELSE <<BSub(q, Big(1)), BAdd(r, b)>>
=============================================================================
