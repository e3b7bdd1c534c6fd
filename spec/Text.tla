-------------------------------- MODULE Text --------------------------------
(* The text formats, on sequences of character codes: what is written for   *)
(* each value and which texts are read as which value.  A parser gives a    *)
(* value, or an error (Err).                                                *)
EXTENDS Round

\* character codes
cPLUS == 43  cMINUS == 45  cDOT == 46  cCOLON == 58  cSPACE == 32  cCOMMA == 44
cT == 84  cZ == 90  ct == 116  cz == 122  cUND == 95  cLBR == 91  cRBR == 93
cP == 80  cY == 89  cM == 77  cW == 87  cD == 68  cH == 72  cS == 83

IsDigit(c) == c >= 48 /\ c <= 57
Dig(n) == <<48 + n>>
Pad2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Pad4(n) == Pad2(n \div 100) \o Pad2(n % 100)
Pad3(n) == <<48 + (n \div 100)>> \o Pad2(n % 100)
Pad9(n) == Pad3(n \div 1000000) \o Pad3((n \div 1000) % 1000) \o Pad3(n % 1000)
RECURSIVE NatTxt(_)
NatTxt(n) == IF n < 10 THEN Dig(n) ELSE NatTxt(n \div 10) \o Dig(n % 10)

RECURSIVE StripZeros(_)
StripZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN StripZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
FracTxt(ns) == IF ns = 0 THEN <<>> ELSE <<cDOT>> \o StripZeros(Pad9(ns))

DateTxt(y, m, d) == Pad4(y) \o <<cMINUS>> \o Pad2(m) \o <<cMINUS>> \o Pad2(d)
TimeTxt(h, mi, s, ns) == Pad2(h) \o <<cCOLON>> \o Pad2(mi) \o <<cCOLON>> \o Pad2(s) \o FracTxt(ns)
OffTxt(off, withSecs) ==
  LET a == Abs(off)
  IN <<IF off < 0 THEN cMINUS ELSE cPLUS>> \o Pad2(a \div 3600) \o <<cCOLON>> \o Pad2((a \div 60) % 60)
     \o (IF withSecs /\ a % 60 # 0 THEN <<cCOLON>> \o Pad2(a % 60) ELSE <<>>)
DTTxt(f, sep) == DateTxt(f[1], f[2], f[3]) \o <<sep>> \o TimeTxt(f[4], f[5], f[6], f[7])

\* a delta's exact part after the T
TDBody(sp) ==   \* sp >= 0
  LET hs == sp[1] * 24 + sp[2] \div 3600
      mi == (sp[2] \div 60) % 60
      s == sp[2] % 60
  IN (IF hs > 0 THEN NatTxt(hs) \o <<cH>> ELSE <<>>)
     \o (IF mi > 0 THEN NatTxt(mi) \o <<cM>> ELSE <<>>)
     \o (IF s > 0 \/ sp[3] > 0 THEN NatTxt(s) \o FracTxt(sp[3]) \o <<cS>> ELSE <<>>)
DDBody(mo, d) ==
  (IF mo \div 12 > 0 THEN NatTxt(mo \div 12) \o <<cY>> ELSE <<>>)
  \o (IF mo % 12 > 0 THEN NatTxt(mo % 12) \o <<cM>> ELSE <<>>)
  \o (IF d > 0 THEN NatTxt(d) \o <<cD>> ELSE <<>>)
DeltaTxt(v) ==
  LET p == Parts(DeltaAbs(v))
      sign == IF DeltaSgn(v) < 0 THEN <<cMINUS>> ELSE <<>>
      d == DDBody(p[1], p[2])
      t == TDBody(p[3])
  IN sign \o <<cP>> \o d
     \o (IF t # <<>> THEN <<cT>> \o t
         ELSE IF v.t = "TD" THEN <<cT, 48, cS>>
         ELSE IF d = <<>> THEN <<48, cD>> ELSE <<>>)

IsoTxt(v) ==
  CASE v.t = "Date" -> DateTxt(v.n[1], v.n[2], v.n[3])
    [] v.t = "YearMonth" -> Pad4(v.n[1]) \o <<cMINUS>> \o Pad2(v.n[2])
    [] v.t = "MonthDay" -> <<cMINUS, cMINUS>> \o Pad2(v.n[1]) \o <<cMINUS>> \o Pad2(v.n[2])
    [] v.t = "Time" -> TimeTxt(v.n[1], v.n[2], v.n[3], v.n[4])
    [] v.t = "Local" -> DTTxt(v.n, cT)
    [] v.t = "Instant" -> DTTxt(Fields(v.n), cT) \o <<cZ>>
    [] v.t \in {"Offset", "System"} -> DTTxt(v.n, cT) \o OffTxt(v.n[8], TRUE)
    [] v.t = "Zoned" -> DTTxt(v.n, cT) \o OffTxt(v.n[8], TRUE) \o <<cLBR>> \o ZoneData[v.z].codes \o <<cRBR>>
    [] IsDelta(v) -> DeltaTxt(v)

\* repr(): the name of the type, and in parentheses the text for people
TypeName(t) ==
  CASE t = "Date" -> <<68,97,116,101>>
    [] t = "YearMonth" -> <<89,101,97,114,77,111,110,116,104>>
    [] t = "MonthDay" -> <<77,111,110,116,104,68,97,121>>
    [] t = "Time" -> <<84,105,109,101>>
    [] t = "Local" -> <<76,111,99,97,108,68,97,116,101,84,105,109,101>>
    [] t = "Instant" -> <<73,110,115,116,97,110,116>>
    [] t = "Offset" -> <<79,102,102,115,101,116,68,97,116,101,84,105,109,101>>
    [] t = "System" -> <<83,121,115,116,101,109,68,97,116,101,84,105,109,101>>
    [] t = "Zoned" -> <<90,111,110,101,100,68,97,116,101,84,105,109,101>>
    [] t = "TD" -> <<84,105,109,101,68,101,108,116,97>>
    [] t = "DD" -> <<68,97,116,101,68,101,108,116,97>>
    [] t = "DTD" -> <<68,97,116,101,84,105,109,101,68,101,108,116,97>>
ReprBody(v) ==
  CASE v.t = "TD" ->   \* hours, minutes, seconds
         LET a == SpanAbs(v.n)
             h == a[1] * 24 + a[2] \div 3600
         IN (IF SpanSgn(v.n) < 0 THEN <<cMINUS>> ELSE <<>>) \o (IF h < 10 THEN Pad2(h) ELSE NatTxt(h))
            \o <<cCOLON>> \o Pad2((a[2] \div 60) % 60) \o <<cCOLON>> \o Pad2(a[2] % 60) \o FracTxt(a[3])
    [] v.t \in {"Local", "Instant", "Offset", "System", "Zoned"} -> [IsoTxt(v) EXCEPT ![11] = cSPACE]
    [] OTHER -> IsoTxt(v)
ReprTxt(v) == TypeName(v.t) \o <<40>> \o ReprBody(v) \o <<41>>

Rfc3339Txt(v) ==
  IF v.t = "Instant" THEN DTTxt(Fields(v.n), cSPACE) \o <<cZ>>
  ELSE DTTxt(v.n, cSPACE) \o OffTxt(v.n[8], FALSE)

\* names of days and months
DayNames == <<<<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>>, <<83,117,110>>>>
MonthNames == <<<<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>,
                <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>>>>
cGMT == <<71, 77, 84>>
Rfc2822Txt(v) ==
  LET f == IF v.t = "Instant" THEN Fields(v.n) ELSE v.n
      off == IF v.t = "Instant" THEN 0 ELSE v.n[8]
      a == Abs(off)
  IN DayNames[Weekday(Ord(f[1], f[2], f[3]))] \o <<cCOMMA, cSPACE>> \o Pad2(f[3]) \o <<cSPACE>> \o MonthNames[f[2]]
     \o <<cSPACE>> \o Pad4(f[1]) \o <<cSPACE>> \o TimeTxt(f[4], f[5], f[6], 0) \o <<cSPACE>>
     \o (IF v.t = "Instant" THEN cGMT
         ELSE <<IF off < 0 THEN cMINUS ELSE cPLUS>> \o Pad2(a \div 3600) \o Pad2((a \div 60) % 60))

----------------------------------------------------------------------------
(* Reading.  A reader at position i of s gives <<next position, value>> or  *)
(* <<>> if there is no match.                                               *)
Is(s, i, c) == i <= Len(s) /\ s[i] = c
IsIn(s, i, S) == i <= Len(s) /\ s[i] \in S

\* number of consecutive digits at i
RECURSIVE DigitRun(_, _)
DigitRun(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN 1 + DigitRun(s, i + 1) ELSE 0

Num(s, i, k) == FoldLeft(LAMBDA acc, c : acc * 10 + (c - 48), 0, SubSeq(s, i, i + k - 1))
\* exactly k digits
ReadNum(s, i, k) ==
  IF i + k - 1 <= Len(s) /\ \A j \in i..(i + k - 1) : IsDigit(s[j])
  THEN <<i + k, Num(s, i, k)>> ELSE <<>>
\* fixed layout of digit groups and separators: lay is a sequence of
\* numbers k > 0 (k digits) and negative codes / sets of codes
Pow10 == <<10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000>>

\* optional fraction at i: <<next, nanoseconds>>; <<>> if it is malformed
ReadFrac(s, i) ==
  IF ~Is(s, i, cDOT) THEN <<i, 0>>
  ELSE LET k == DigitRun(s, i + 1)
       IN IF k = 0 \/ k > 9 THEN <<>>
          ELSE <<i + 1 + k, Num(s, i + 1, k) * (IF k = 9 THEN 1 ELSE Pow10[9 - k])>>

ReadYMD(s, i) ==    \* YYYY-MM-DD at i
  LET y == ReadNum(s, i, 4)  m == ReadNum(s, i + 5, 2)  d == ReadNum(s, i + 8, 2)
  IN IF y # <<>> /\ m # <<>> /\ d # <<>> /\ Is(s, i + 4, cMINUS) /\ Is(s, i + 7, cMINUS)
        /\ ValidYMD(y[2], m[2], d[2])
     THEN <<i + 10, <<y[2], m[2], d[2]>>>> ELSE <<>>
ReadHMS(s, i) ==    \* HH:MM:SS[.fff] at i
  LET h == ReadNum(s, i, 2)  m == ReadNum(s, i + 3, 2)  x == ReadNum(s, i + 6, 2)
      f == ReadFrac(s, i + 8)
  IN IF h # <<>> /\ m # <<>> /\ x # <<>> /\ f # <<>> /\ Is(s, i + 2, cCOLON) /\ Is(s, i + 5, cCOLON)
        /\ h[2] <= 23 /\ m[2] <= 59 /\ x[2] <= 59
     THEN <<f[1], <<h[2], m[2], x[2], f[2]>>>> ELSE <<>>
\* date, separator, time: <<next, fields>>
ReadDT(s, i, seps) ==
  LET d == ReadYMD(s, i)
  IN IF d = <<>> \/ ~IsIn(s, i + 10, seps) THEN <<>>
     ELSE LET t == ReadHMS(s, i + 11)
          IN IF t = <<>> THEN <<>> ELSE <<t[1], d[2] \o t[2]>>
\* numeric offset [+-]HH:MM[:SS]: <<next, seconds, is it -00:00[:00]?>>
ReadOff(s, i, withSecs) ==
  LET h == ReadNum(s, i + 1, 2)  m == ReadNum(s, i + 4, 2)
      x == IF withSecs /\ Is(s, i + 6, cCOLON) THEN ReadNum(s, i + 7, 2) ELSE <<i + 6, 0>>
  IN IF ~IsIn(s, i, {cPLUS, cMINUS}) \/ h = <<>> \/ m = <<>> \/ x = <<>> \/ ~Is(s, i + 3, cCOLON) THEN <<>>
     ELSE IF h[2] > 23 \/ m[2] > 59 \/ x[2] > 59 THEN <<>>
     ELSE LET a == SecsOf(h[2], m[2], x[2])
          IN <<x[1], IF s[i] = cMINUS THEN -a ELSE a, s[i] = cMINUS /\ a = 0>>

Whole(r, s) == r # <<>> /\ r[1] = Len(s) + 1

ParseDate(s) ==
  LET r == ReadYMD(s, 1) IN IF Whole(r, s) THEN V("Date", r[2]) ELSE ValueErr
ParseYM(s) ==
  LET r == ReadYMD(s \o <<cMINUS, 48, 49>>, 1)
  IN IF Len(s) = 7 /\ r # <<>> THEN V("YearMonth", <<r[2][1], r[2][2]>>) ELSE ValueErr
ParseMD(s) ==   \* --MM-DD
  LET r == ReadYMD(<<48, 48, 48, 52>> \o Tail(s), 1)
  IN IF Len(s) = 7 /\ s[1] = cMINUS /\ r # <<>> THEN V("MonthDay", <<r[2][2], r[2][3]>>) ELSE ValueErr
ParseTime(s) ==
  LET r == ReadHMS(s, 1) IN IF Whole(r, s) THEN V("Time", r[2]) ELSE ValueErr
ParseLocal(s) ==
  LET r == ReadDT(s, 1, {cT}) IN IF Whole(r, s) THEN V("Local", r[2]) ELSE ValueErr

\* fields and offset as an offset value
OffsetFrom(f, off) ==
  LET v == V("Offset", f \o <<off>>) IN IF ValidMoment(Moment(v)) THEN v ELSE ValueErr

\* (a numeric "-00:00" is the one text whose acceptance isn't documented)
OneOr(set, x) == IF x THEN set \cup {ValueErr} ELSE set

ParseInstant(s) ==
  LET r == ReadDT(s, 1, {cT})
      f == r[2]
      v == MkInstant(LocalSpan(V("Local", f)))
  IN IF r = <<>> THEN {ValueErr}
     ELSE IF Is(s, r[1], cZ) /\ r[1] = Len(s) THEN {v}
     ELSE LET o == ReadOff(s, r[1], FALSE)
          IN IF Whole(o, s) /\ o[2] = 0 /\ ~o[3] THEN {v} ELSE {ValueErr}

ParseOffset(s) ==
  LET r == ReadDT(s, 1, {cT})
  IN IF r = <<>> THEN {ValueErr}
     ELSE IF Is(s, r[1], cZ) /\ r[1] = Len(s) THEN {OffsetFrom(r[2], 0)}
     ELSE LET o == ReadOff(s, r[1], TRUE)
          IN IF Whole(o, s) THEN OneOr({OffsetFrom(r[2], o[2])}, o[3]) ELSE {ValueErr}

ParseSystem(s) ==
  {IF v.t = "Offset" THEN V("System", v.n) ELSE v : v \in ParseOffset(s)}

\* of two things wrong with a text, the unknown timezone may be what is reported
UnknownKey(s) ==
  LET at == {i \in 1..Len(s) : s[i] = cLBR}
  IN IF at # {} /\ s[Len(s)] = cRBR /\ (\E i \in at : \A z \in DOMAIN ZoneData : ZoneData[z].codes # SubSeq(s, i + 1, Len(s) - 1))
     THEN {Err("ZoneNotFound")} ELSE {}

\* zone: names known -> name; the text between brackets must be one of them
ParseZoned(s) ==
  LET r == ReadDT(s, 1, {cT})
      o == IF r = <<>> THEN <<>>
           ELSE IF Is(s, r[1], cZ) THEN <<r[1] + 1, 0, FALSE>> ELSE ReadOff(s, r[1], TRUE)
      key == SubSeq(s, o[1] + 1, Len(s) - 1)
      zs == {z \in DOMAIN ZoneData : ZoneData[z].codes = key}
  IN IF o = <<>> \/ ~Is(s, o[1], cLBR) \/ s[Len(s)] # cRBR \/ key = <<>> \/ Len(key) > 255
        \/ (\E i \in 1..Len(key) : key[i] = cRBR) THEN {ValueErr} \cup UnknownKey(s)
     ELSE IF zs = {} THEN {Err("ZoneNotFound"), ValueErr}
     ELSE LET z == CHOOSE z \in zs : TRUE
              loc == LocalSpan(V("Local", r[2]))
              u == SpanAddSecs(loc, -o[2])
          IN IF ~ValidMoment(u) THEN {ValueErr, Err("InvalidOffset")}
             ELSE IF OffsetAt(z, <<u[1], u[2]>>) = o[2]
             THEN OneOr({VZ("Zoned", r[2] \o <<o[2]>>, z)}, o[3])
             ELSE OneOr({Err("InvalidOffset")}, o[3] \/ loc[1] < 3 \/ loc[1] > MAXORD - 2)

ParseRfc3339Offset(s) ==
  LET r == ReadDT(s, 1, {cT, ct, cUND, cSPACE})
  IN IF r = <<>> THEN {ValueErr}
     ELSE IF IsIn(s, r[1], {cZ, cz}) /\ r[1] = Len(s) THEN {OffsetFrom(r[2], 0)}
     ELSE LET o == ReadOff(s, r[1], FALSE)
          IN IF Whole(o, s) THEN {OffsetFrom(r[2], o[2])} ELSE {ValueErr}
ParseRfc3339Instant(s) ==
  {IF v.t = "Offset" THEN (IF v.n[8] = 0 THEN MkInstant(Moment(v)) ELSE ValueErr) ELSE v : v \in ParseRfc3339Offset(s)}

----------------------------------------------------------------------------
(* Durations *)
\* decimal digits s[i..i+k-1] as a big
DigitsBig(s, i, k) ==
  LET d(j) == IF j >= i THEN s[j] - 48 ELSE 0
      n == (k + 2) \div 3
  IN MkBig(1, [g \in 1..n |-> LET e == i + k - 1 - 3 * (g - 1)
                              IN d(e) + 10 * (IF e - 1 >= i THEN d(e - 1) ELSE 0)
                                 + 100 * (IF e - 2 >= i THEN d(e - 2) ELSE 0)])

\* components n<unit> in the given order of units, each at most once, with at
\* most maxDigits digits: <<next, sequence of bigs, fraction ns, count>>
\* only the last unit may have a fraction, if frac
RECURSIVE ReadComps(_, _, _, _, _, _)
ReadComps(s, i, units, maxDigits, frac, acc) ==
  IF units = <<>> THEN <<i, acc[1], acc[2], acc[3]>>
  ELSE LET k == DigitRun(s, i)
           f == IF frac /\ Len(units) = 1 THEN ReadFrac(s, i + k) ELSE <<i + k, 0>>
           hit == k > 0 /\ k <= maxDigits /\ f # <<>> /\ Is(s, f[1], Head(units))
       IN IF hit
          THEN ReadComps(s, f[1] + 1, Tail(units), maxDigits, frac,
                         <<Append(acc[1], DigitsBig(s, i, k)), f[2], acc[3] + 1>>)
          ELSE ReadComps(s, i, Tail(units), maxDigits, frac, <<Append(acc[1], BZero), acc[2], acc[3]>>)

SignLen(s) == IF s # <<>> /\ s[1] \in {cPLUS, cMINUS} THEN 1 ELSE 0
SignNeg(s) == Is(s, 1, cMINUS)
ApplySign(neg, v) == IF neg /\ IsDelta(v) THEN DeltaNeg(v) ELSE v

ParseTD(s) ==
  LET k == SignLen(s)
      c == ReadComps(s, k + 3, <<cH, cM, cS>>, 35, TRUE, <<<<>>, 0, 0>>)
      ns == BAdd(BAdd(BMul(c[2][1], BHOUR), BMul(c[2][2], BMINUTE)),
                 BAdd(BMul(c[2][3], BGIGA), Big(c[3])))
  IN IF Is(s, k + 1, cP) /\ Is(s, k + 2, cT) /\ c[1] = Len(s) + 1 /\ c[4] > 0
     THEN ApplySign(SignNeg(s), TDOfBig(ns)) ELSE ValueErr

ParseDD(s) ==
  LET k == SignLen(s)
      c == ReadComps(s, k + 2, <<cY, cM, cW, cD>>, 8, FALSE, <<<<>>, 0, 0>>)
      mo == BAdd(BMul(c[2][1], Big(12)), c[2][2])
      d == BAdd(BMul(c[2][3], Big(7)), c[2][4])
  IN IF Is(s, k + 1, cP) /\ c[1] = Len(s) + 1 /\ c[4] > 0
     THEN ApplySign(SignNeg(s), MkDD(Clamp(mo), Clamp(d))) ELSE ValueErr

ParseDTD(s) ==
  LET k == SignLen(s)
      c == ReadComps(s, k + 2, <<cY, cM, cW, cD>>, 400, FALSE, <<<<>>, 0, 0>>)
      hasT == Is(s, c[1], cT)
      x == IF hasT THEN ReadComps(s, c[1] + 1, <<cH, cM, cS>>, 400, TRUE, <<<<>>, 0, 0>>)
           ELSE <<c[1], <<BZero, BZero, BZero>>, 0, 0>>
      mo == BAdd(BMul(c[2][1], Big(12)), c[2][2])
      d == BAdd(BMul(c[2][3], Big(7)), c[2][4])
      ns == BAdd(BAdd(BMul(x[2][1], BHOUR), BMul(x[2][2], BMINUTE)),
                 BAdd(BMul(x[2][3], BGIGA), Big(x[3])))
  IN IF Is(s, k + 1, cP) /\ x[1] = Len(s) + 1 /\ (IF hasT THEN x[4] > 0 ELSE c[4] > 0)
     THEN ApplySign(SignNeg(s), MkDTD(Clamp(mo), Clamp(d), BigToSpan(ns))) ELSE ValueErr

ParseIso(t, s) ==
  CASE t = "Date" -> {ParseDate(s)}
    [] t = "YearMonth" -> {ParseYM(s)}
    [] t = "MonthDay" -> {ParseMD(s)}
    [] t = "Time" -> {ParseTime(s)}
    [] t = "Local" -> {ParseLocal(s)}
    [] t = "Instant" -> ParseInstant(s)
    [] t = "Offset" -> ParseOffset(s)
    [] t = "System" -> ParseSystem(s)
    [] t = "Zoned" -> ParseZoned(s)
    [] t = "TD" -> {ParseTD(s)}
    [] t = "DD" -> {ParseDD(s)}
    [] t = "DTD" -> {ParseDTD(s)}
=============================================================================
