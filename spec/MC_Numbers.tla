----------------------------- MODULE MC_Numbers ------------------------------
(* The specification's own arithmetic (limb numbers, spans) against TLC's   *)
(* integers, and the laws of durations built on it (C07, C08, C13).  The    *)
(* walk goes through pairs of numbers.                                      *)
EXTENDS Round
CONSTANT Top
Nums == {0, 1, 2, 3, 7, 9, 10, 11, 99, 100, 999, 1000, 1001, 1999, 2000, 9999, 46340, 86399, 86400, 999999, 1000000, 123456789, 999999999}
Ints == {n \in Nums : n <= Top} \cup {-n : n \in {m \in Nums : m <= Top}}

VARIABLES a, b
Init == a \in Ints /\ b = 0
Next == b = 0 /\ b' \in Ints \ {0} /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>

Small(x) == Abs(x) <= 46340
ToInt(x) == BSmall(x)
Norm(x) == x = BZero \/ (x[1] \in {-1, 1} /\ x[2] # <<>> /\ Last(x[2]) # 0 /\ \A i \in 1..Len(x[2]) : x[2][i] \in 0..999)

Arithmetic ==
  LET x == Big(a)  y == Big(b)
      sum == BAdd(x, y)  diff == BSub(x, y)  prod == BMul(x, y)
  IN /\ Norm(x) /\ Norm(sum) /\ Norm(diff) /\ Norm(prod)
     /\ ToInt(x) = a
     /\ Abs(a) + Abs(b) < GIGA => ToInt(sum) = a + b /\ ToInt(diff) = a - b
     /\ Small(a) /\ Small(b) /\ Abs(a * b) < GIGA => ToInt(prod) = a * b
     /\ BAdd(diff, y) = x /\ BSub(sum, y) = x
     /\ BMul(sum, Big(7)) = BAdd(BMul(x, Big(7)), BMul(y, Big(7)))
     /\ BMul(prod, y) = BMul(x, BMul(y, y))
     /\ BCmp(x, y) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
Division ==
  b # 0 =>
    LET x == BMul(Big(a), Big(1000003))  y == Big(b)
        qr == BFloorDiv(x, y)  e == BFloorDiv(Big(a), y)
    IN /\ IsFloorDiv(x, y, qr[1], qr[2])
       /\ IsFloorDiv(Big(a), y, e[1], e[2])
       /\ b > 0 => ToInt(e[1]) = a \div b /\ ToInt(e[2]) = a % b
Spans ==
  LET s == Span(Sgn(a) * (Abs(a) % 4000), b % 100000, (a + (b % 1000)) % GIGA)
      t == Span(Sgn(b) * (Abs(b) % 3000), a % 100000, b % GIGA)
  IN /\ BigToSpan(SpanToBig(s)) = s
     /\ SpanToBig(SpanAdd(s, t)) = BAdd(SpanToBig(s), SpanToBig(t))
     /\ SpanToBig(SpanSub(s, t)) = BSub(SpanToBig(s), SpanToBig(t))
     /\ SpanSub(SpanAdd(s, t), t) = s
     /\ SpanNeg(SpanNeg(s)) = s
     /\ SpanCmp(s, t) = BCmp(SpanToBig(s), SpanToBig(t))
     /\ SpanSgn(s) = SpanToBig(s)[1]
\* durations: a monoid, and a group as long as nothing gets out of range
DD(m, d) == MkDD(m, d)
Deltas ==
  LET s == Span(Sgn(a) * (Abs(a) % 4000), b % 100000, (a + (b % 1000)) % GIGA)
      t == Span(Sgn(b) * (Abs(b) % 3000), a % 100000, b % GIGA)
      x == MkTD(s)  y == MkTD(t)
      p == MkDTD(a % 1000, Abs(b) % 500, SpanAbs(s))
      q == MkDD(b % 700, Abs(a) % 100)
  IN /\ DeltaAdd(x, y) = DeltaAdd(y, x)
     /\ DeltaAdd(DeltaAdd(x, y), DeltaNeg(y)) = x
     /\ DeltaMul(x, Big(3)) = DeltaAdd(x, DeltaAdd(x, x))
     /\ DeltaMul(x, Big(-1)) = DeltaNeg(x)
     /\ DeltaSgn(DeltaAbs(x)) >= 0 /\ DeltaAbs(DeltaNeg(x)) = DeltaAbs(x)
     /\ ~IsErr(p) => DeltaNeg(DeltaNeg(p)) = p /\ DeltaAdd(p, DeltaNeg(p)) = V("DTD", <<0, 0, 0, 0, 0>>)
                     /\ (\A i \in 1..2 : SameSign(p.n[i], DeltaSgn(p))) /\ SameSign(SpanSgn(Parts(p)[3]), DeltaSgn(p))
     /\ ~IsErr(p) /\ ~IsErr(q) => DeltaAdd(p, q) = DeltaAdd(q, p)
     /\ ~IsErr(q) => DeltaAdd(q, q) = DeltaMul(q, Big(2))
\* the kinds of durations, one component at a time: the sign is that of whatever
\* is not zero, mixing kinds gives a duration with a date and a time part, and
\* scaling goes through every part
Kinds ==
  LET n == IF b = 0 THEN a ELSE Sgn(a) * (Abs(a) % Abs(b))
      small == Sgn(n) * (Abs(n) % 1000)
      spans == {Span(small, 0, 0), Span(0, small, 0), Span(0, 0, small)}
      ones == {V("TD", s) : s \in spans} \cup {V("DTD", <<0, 0>> \o s) : s \in spans}
              \cup {V("DD", <<small, 0>>), V("DD", <<0, small>>),
                    V("DTD", <<small, 0, 0, 0, 0>>), V("DTD", <<0, small, 0, 0, 0>>)}
  IN /\ \A v \in ones : /\ DeltaSgn(v) = Sgn(small)
                         /\ DeltaSgn(DeltaNeg(v)) = -Sgn(small)
                         /\ DeltaAbs(v) = (IF small < 0 THEN DeltaNeg(v) ELSE v)
                         /\ IsDelta(v)
                         /\ DeltaMul(v, Big(2)) = DeltaAdd(v, v)
                         /\ DeltaMul(v, Big(-1)) = DeltaNeg(v)
                         /\ DeltaMul(v, Big(0)) = DeltaAdd(v, DeltaNeg(v))
                         /\ DeltaMul(v, Big(1)) = v
     /\ \A v \in ones, w \in ones :
          LET r == DeltaAdd(v, w)
          IN /\ r = DeltaAdd(w, v)
             /\ r.t = (IF v.t = w.t THEN v.t ELSE "DTD")
             /\ Parts(r) = <<Parts(v)[1] + Parts(w)[1], Parts(v)[2] + Parts(w)[2], SpanAdd(Parts(v)[3], Parts(w)[3])>>
\* the limits of durations: reached from both sides, not passed by a nanosecond
Limits ==
  LET n == 1 + (Abs(a) % 999999999)
      top == <<MAXDAYS, 0, 0>>  bottom == <<-MAXDAYS, 0, 0>>
      k == Abs(b) % 1000
  IN /\ SpanOK(top) /\ SpanOK(bottom) /\ SpanOK(SpanZero)
     /\ SpanOK(SpanSub(top, <<0, 0, n>>)) /\ SpanOK(SpanAdd(bottom, <<0, 0, n>>))
     /\ ~SpanOK(SpanAdd(top, <<0, 0, n>>)) /\ ~SpanOK(SpanSub(bottom, <<0, 0, n>>))
     /\ ~SpanOK(<<MAXDAYS + 1 + k, 0, 0>>) /\ ~SpanOK(<<-MAXDAYS - 1 - k, 0, 0>>)
     /\ ~IsErr(MkDD(MAXMONTHS, MAXDAYS)) /\ ~IsErr(MkDD(-MAXMONTHS, -MAXDAYS))
     /\ IsErr(MkDD(MAXMONTHS + 1 + k, 0)) /\ IsErr(MkDD(-MAXMONTHS - 1 - k, 0))
     /\ IsErr(MkDD(0, MAXDAYS + 1 + k)) /\ IsErr(MkDD(0, -MAXDAYS - 1 - k))
     /\ IsErr(MkDD(1 + k, -1 - k)) /\ IsErr(MkDD(-1 - k, 1 + k))
     /\ IsErr(MkDTD(1, 0, Span(0, 0, -n))) /\ IsErr(MkDTD(0, -1, Span(0, 0, n)))
     /\ IsErr(MkDTD(0, 1, Span(0, 0, -n))) /\ IsErr(MkDTD(-1, 0, Span(0, 0, n)))
     /\ ~IsErr(MkDTD(0, 0, Span(0, 0, -n))) /\ ~IsErr(MkDTD(0, 0, Span(0, 0, n)))
     /\ ~IsErr(MkDTD(1, 1, Span(0, 0, n))) /\ ~IsErr(MkDTD(-1, -1, Span(0, 0, -n)))
     /\ IsErr(MkDTD(MAXMONTHS + 1, 0, SpanZero)) /\ IsErr(MkDTD(0, 0, SpanAdd(top, <<0, 0, n>>)))
     \* what is far out of range stays so (the counts given may be huge)
     /\ Clamp(Big(a)) = a \/ Abs(a) >= 100000000
     /\ LET huge == BMul(Big(Sgn(a) * n), BMul(BDAYNS, BDAYNS))
            big == BMul(Big(Sgn(a) * n), Big(1000))
        IN a # 0 => /\ n >= 120 => IsErr(MkDD(Clamp(big), 0)) /\ Sgn(Clamp(big)) = Sgn(a)
                    /\ IsErr(MkDD(Clamp(huge), 0)) /\ IsErr(TDOfBig(huge)) /\ Sgn(Clamp(huge)) = Sgn(a)
\* the fields of a time, a date, a date and time, an offset: each has its range, and one
\* out of range is enough to be refused, by the makers and by Valid alike
FieldRanges ==
  LET tops == <<23, 59, 59, 999999999>>
      In(i) == Abs(IF i = 1 THEN a ELSE b) % (tops[i] + 1)
      good == [i \in 1..4 |-> In(i)]
      full == <<2000 + (Abs(a) % 400), 1 + (Abs(a) % 12), 1 + (Abs(b) % 28)>> \o good
      Bad(i, x) == [good EXCEPT ![i] = x]
  IN /\ ValidTime(good[1], good[2], good[3], good[4])
     /\ ~IsErr(MkLocal(full)) /\ MkLocal(full).n = full /\ Valid(MkLocal(full))
     /\ ~IsErr(MkTime(good[1], good[2], good[3], good[4])) /\ Valid(V("Time", good))
     /\ \A i \in 1..4 : \A x \in {-1, tops[i] + 1, -1 - good[i], Min2(tops[i] + 1 + good[i], 2000000000)} :
          LET t == Bad(i, x)
              f == SubSeq(full, 1, 3) \o t
          IN /\ IsErr(MkTime(t[1], t[2], t[3], t[4])) /\ ~Valid(V("Time", t))
             /\ IsErr(MkLocal(f)) /\ ~Valid(V("Local", f))
     /\ \A i \in 1..4 : \A x \in {0, tops[i]} :
          LET t == Bad(i, x) IN ~IsErr(MkTime(t[1], t[2], t[3], t[4]))
     /\ \A y \in {0, -1, 10000} : IsErr(MkDate(<<y, 1, 1>>)) /\ IsErr(MkLocal(<<y, 1, 1, 0, 0, 0, 0>>))
     /\ \A m \in {0, -1, 13} : IsErr(MkDate(<<2000, m, 1>>))
     /\ \A m \in 1..12 : LET n == DaysInMonth(full[1], m)
                         IN /\ IsErr(MkDate(<<full[1], m, 0>>)) /\ IsErr(MkDate(<<full[1], m, n + 1>>))
                            /\ ~IsErr(MkDate(<<full[1], m, 1>>)) /\ ~IsErr(MkDate(<<full[1], m, n>>))
     /\ ValidOffset(Sgn(a) * (Abs(b) % 86400)) /\ ValidOffset(86399) /\ ValidOffset(-86399)
     /\ \A o \in {86400, -86400, 86400 + (Abs(a) % 1000000), -86400 - (Abs(a) % 1000000)} : ~ValidOffset(o)
=============================================================================
