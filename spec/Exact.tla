------------------------------- MODULE Exact -------------------------------
(* Exact arithmetic within TLC's 32-bit integers.                          *)
(*                                                                         *)
(*  - a "span" <<d, s, n>> is d days of 86400 s, s seconds and n           *)
(*    nanoseconds, with 0 <= s < 86400 and 0 <= n < 10^9 (d may be         *)
(*    negative): every duration and every moment on a timeline             *)
(*  - a "big" <<sgn, limbs>> is an integer of any size: sgn in {-1,0,1},   *)
(*    limbs little-endian in base 1000 without leading zeros               *)
EXTENDS Integers, Sequences, SequencesExt, TLC

DAY == 86400
GIGA == 1000000000

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

----------------------------------------------------------------------------
(* Spans *)
SpanZero == <<0, 0, 0>>

\* normalise; |n| <= 2*10^9, |s| small enough not to overflow
Span(d, s, n) ==
  LET s1 == s + n \div GIGA
  IN <<d + s1 \div DAY, s1 % DAY, n % GIGA>>

SpanAdd(a, b) == Span(a[1] + b[1], a[2] + b[2], a[3] + b[3])
SpanNeg(a) == Span(-a[1], -a[2], -a[3])
SpanSub(a, b) == Span(a[1] - b[1], a[2] - b[2], a[3] - b[3])
SpanAddSecs(a, s) == Span(a[1], a[2] + s, a[3])

SpanCmp(a, b) ==
  IF a[1] # b[1] THEN Sgn(a[1] - b[1])
  ELSE IF a[2] # b[2] THEN Sgn(a[2] - b[2])
  ELSE Sgn(a[3] - b[3])
SpanLT(a, b) == SpanCmp(a, b) < 0
SpanLE(a, b) == SpanCmp(a, b) <= 0
SpanSgn(a) == IF a = SpanZero THEN 0 ELSE IF a[1] < 0 THEN -1 ELSE 1
SpanAbs(a) == IF a[1] < 0 THEN SpanNeg(a) ELSE a

----------------------------------------------------------------------------
(* Bigs *)
BZero == <<0, <<>>>>

\* drop the leading zeros of a limb sequence
RECURSIVE Trim(_)
Trim(l) == IF l # <<>> /\ l[Len(l)] = 0 THEN Trim(SubSeq(l, 1, Len(l) - 1)) ELSE l

MkBig(sgn, l) == LET t == Trim(l) IN IF t = <<>> THEN BZero ELSE <<sgn, t>>

RECURSIVE NatLimbs(_)
NatLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % 1000>> \o NatLimbs(n \div 1000)
Big(n) == IF n = 0 THEN BZero ELSE <<Sgn(n), NatLimbs(Abs(n))>>

At(l, i) == IF i <= Len(l) THEN l[i] ELSE 0

\* carry a sequence of non-negative coefficients (each < 2*10^9)
Carry(c) ==
  LET Step(acc, x) == LET v == x + acc[2] IN <<Append(acc[1], v % 1000), v \div 1000>>
      r == FoldLeft(Step, <<<<>>, 0>>, c)
  IN r[1] \o NatLimbs(r[2])

MagCmp(a, b) ==   \* trimmed limb sequences
  IF Len(a) # Len(b) THEN Sgn(Len(a) - Len(b))
  ELSE LET D == {i \in 1..Len(a) : a[i] # b[i]}
       IN IF D = {} THEN 0 ELSE LET i == CHOOSE i \in D : \A j \in D : j <= i IN Sgn(a[i] - b[i])

MagAdd(a, b) == Carry([i \in 1..Max2(Len(a), Len(b)) |-> At(a, i) + At(b, i)])

\* a >= b
MagSub(a, b) ==
  LET Step(acc, x) == LET v == x - acc[2]
                      IN <<Append(acc[1], v % 1000), IF v < 0 THEN 1 ELSE 0>>
      r == FoldLeft(Step, <<<<>>, 0>>, [i \in 1..Len(a) |-> a[i] - At(b, i)])
  IN Trim(r[1])

BAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN <<a[1], MagAdd(a[2], b[2])>>
  ELSE LET c == MagCmp(a[2], b[2])
       IN IF c = 0 THEN BZero
          ELSE IF c > 0 THEN <<a[1], MagSub(a[2], b[2])>>
          ELSE <<b[1], MagSub(b[2], a[2])>>
BNeg(a) == <<-a[1], a[2]>>
BSub(a, b) == BAdd(a, BNeg(b))
BAbs(a) == <<Abs(a[1]), a[2]>>
BCmp(a, b) ==
  IF a[1] # b[1] THEN Sgn(a[1] - b[1])
  ELSE IF a[1] = 0 THEN 0
  ELSE a[1] * MagCmp(a[2], b[2])

MagMul(a, b) ==
  LET la == Len(a)  lb == Len(b)
      Coef(k) == LET lo == Max2(1, k + 1 - lb)  hi == Min2(k, la)
                 IN FoldLeft(LAMBDA acc, i : acc + a[i] * b[k + 1 - i], 0, [j \in 1..(hi - lo + 1) |-> lo + j - 1])
  IN Carry([k \in 1..(la + lb - 1) |-> Coef(k)])
BMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN BZero ELSE MkBig(a[1] * b[1], MagMul(a[2], b[2]))

\* |a| as a native integer if it is below 10^9 (else the caller must not ask)
BIsSmall(a) == Len(a[2]) <= 3
BSmall(a) == a[1] * (At(a[2], 1) + 1000 * At(a[2], 2) + 1000000 * At(a[2], 3))

\* magnitude divided by a small positive number k <= 10^6: <<quotient, remainder>>
MagDivSmall(l, k) ==
  LET Step(acc, x) == LET v == acc[2] * 1000 + x IN <<<<v \div k>> \o acc[1], v % k>>
      r == FoldLeft(Step, <<<<>>, 0>>, Reverse(l))
  IN <<Trim(r[1]), r[2]>>

----------------------------------------------------------------------------
(* A span counts nanoseconds; conversions to and from bigs *)
BDAYNS == BMul(Big(86400), Big(GIGA))
BGIGA == Big(GIGA)
SpanToBig(a) == BAdd(BAdd(BMul(Big(a[1]), BDAYNS), BMul(Big(a[2]), BGIGA)), Big(a[3]))

\* nanoseconds as a span; <<>> when the number of days doesn't fit
BigToSpan(b) ==
  LET l == b[2]
      ns == At(l, 1) + 1000 * At(l, 2) + 1000000 * At(l, 3)
      qr == MagDivSmall(SubSeq(l, 4, Len(l)), DAY)
  IN IF Len(qr[1]) > 3 THEN <<>>
     ELSE LET days == BSmall(<<1, qr[1]>>)
          IN IF b[1] < 0 THEN Span(-days, -qr[2], -ns) ELSE <<days, qr[2], ns>>
=============================================================================
