------------------------------- MODULE MC_Text -------------------------------
(* Texts.  Every text over a small alphabet is grown character by           *)
(* character and read as each kind of duration: a text that is read as a    *)
(* value and the one written for it are read alike (C09, C10).  And every   *)
(* value of a set is written and read back, in each format.                 *)
EXTENDS Ops
CONSTANT MaxLen
VARIABLES s, v

Alphabet == {cP, cT, cY, cM, cW, cD, cH, cS, cDOT, 48, 49, 57}
Starts == {<<>>, <<cP>>, <<cMINUS, cP>>, <<cP, cT>>, <<cP, 49, cD, cT>>, <<cP, 49, cY>>}

Years == {1, 4, 99, 1582, 1999, 2000, 2024, 9999}
Dates == {d \in {<<y, m, dd>> : y \in Years, m \in {1, 2, 9, 10, 12}, dd \in {1, 9, 10, 28, 29, 31}} : ValidYMD(d[1], d[2], d[3])}
Times == {<<0, 0, 0, 0>>, <<23, 59, 59, 999999999>>, <<1, 2, 3, 4>>, <<10, 20, 30, 400000000>>, <<12, 0, 0, 120>>, <<9, 0, 5, 1000>>}
Offs == {0, 3600, -3600, 1, -1, 59, 60, -60, 1800, -1800, 86399, -86399, 45296, -16200}
NoV == V("None", <<>>)
Vals == {V("Date", d) : d \in Dates}
   \cup {V("Time", t) : t \in Times}
   \cup {V("YearMonth", <<y, m>>) : y \in Years, m \in 1..12}
   \cup {V("MonthDay", SubSeq(d, 2, 3)) : d \in {e \in Dates : e[1] = 4}}
   \cup {V("Local", d \o t) : d \in Dates, t \in Times}
   \cup {w \in {V(t, <<y, m, 9>> \o c \o <<o>>) : t \in {"Offset", "System"}, y \in Years, m \in {1, 12}, c \in Times, o \in Offs} : Valid(w)}
   \cup {V("Instant", <<o, 3723, n>>) : o \in {1, 730000, MAXORD}, n \in {0, 1, 500000000, 999999000}}
   \cup {w \in {MkZoned(<<d, h * 3600, 7000>>, z) : d \in 730000..730010, h \in {0, 7, 22}, z \in DOMAIN ZoneData} : ~IsErr(w)}
   \cup {MkTD(SpanNeg(<<d, x, n>>)) : d \in {0, 1, 40, MAXDAYS - 1}, x \in {0, 1, 60, 3600, 86399}, n \in {0, 1, 10, 999999999}}
   \cup {MkTD(<<d, x, n>>) : d \in {0, 1, 40, MAXDAYS - 1}, x \in {0, 1, 60, 3600, 86399}, n \in {0, 1, 10, 999999999}}
   \cup {w \in {MkDD(mo, d) : mo \in {0, 1, -1, 11, 12, -12, 14, MAXMONTHS, -MAXMONTHS}, d \in {0, 1, 7, -7, -30, MAXDAYS, -MAXDAYS}} : ~IsErr(w)}
   \cup {w \in {MkDTD(mo, d, sp) : mo \in {0, 1, -1, 12, 25}, d \in {0, 7, -8}, sp \in {SpanZero, <<0, 0, 1>>, <<-1, 86399, 999999999>>, <<3, 3600, 0>>, <<0, 61, 500>>}} : ~IsErr(w)}

Init == v = NoV /\ s \in Starts
Grow == v = NoV /\ Len(s) < MaxLen /\ s' \in {Append(s, c) : c \in Alphabet} /\ UNCHANGED v
Write == v = NoV /\ s = <<>> /\ v' \in Vals /\ s' = IsoTxt(v')
Next == Grow \/ Write
Spec == Init /\ [][Next]_<<s, v>>

ReadBack == v # NoV => ParseIso(v.t, s) = {v}
\* of the types whose texts all look different, none reads another's
Apart ==
  v # NoV => /\ \A t \in {"Date", "Time", "YearMonth", "MonthDay", "Local", "Instant", "Zoned"} \ {v.t} :
                  \A r \in ParseIso(t, s) : ~IsErr(r) => t = "Instant" /\ v.t \in {"Offset", "System"} /\ v.n[8] = 0
             /\ \A t \in {"TD", "DD", "DTD"} : ~IsDelta(v) => ParseIso(t, s) = {ValueErr}
Internet ==
  /\ v.t \in {"Instant", "Offset"} => LET w == IF v.t = "Instant" THEN ParseRfc3339Instant(Rfc3339Txt(v)) ELSE ParseRfc3339Offset(Rfc3339Txt(v))
       IN (v.t = "Offset" /\ (Abs(v.n[8]) % 60) # 0) \/ w = {v}
  /\ v.t = "Instant" => Read2822(Rfc2822Txt(v)) # <<>> /\ As2822("Instant", Read2822(Rfc2822Txt(v)), Read2822(Rfc2822Txt(v))[1][1])
                          = V("Instant", <<v.n[1], v.n[2], 0>>)
  /\ v.t = "Offset" /\ (Abs(v.n[8]) % 60) = 0 =>
       LET r == Read2822(Rfc2822Txt(v)) IN r # <<>> /\ As2822("Offset", r, r[1][1]) = V("Offset", SubSeq(v.n, 1, 6) \o <<0>> \o <<v.n[8]>>)
Canonical ==
  v = NoV => \A t \in {"TD", "DD", "DTD"} : \A r \in ParseIso(t, s) :
    ~IsErr(r) => /\ r.t = t
                 /\ ParseIso(t, IsoTxt(r)) = {r}
                 \* a duration without a sign is not negative
                 /\ (s[1] # cMINUS => DeltaSgn(r) >= 0)
                 \* what TD or DD reads, DTD reads as the same
                 /\ (t # "DTD" => \A q \in ParseIso("DTD", s) : ~IsErr(q) /\ Parts(q) = Parts(r))
=============================================================================
