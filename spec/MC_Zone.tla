------------------------------- MODULE MC_Zone -------------------------------
(* How local times resolve, and where days start, in the made-up zones of   *)
(* models/zones.json: the definitions of Zone.tla and Values.tla against    *)
(* brute force over a walk through the moments around (C04, C05, C18).      *)
EXTENDS Ops, FiniteSets
CONSTANTS Step,     \* seconds
          Slow      \* also look at the days

D0 == 729998
D1 == 730012
VARIABLES z, l      \* zone, local second
Init == z \in DOMAIN ZoneData /\ l = <<D0, 0>>
Next == SecLT(l, <<D1, 0>>) /\ l' = SecAdd(l, Step) /\ UNCHANGED z
Spec == Init /\ [][Next]_<<z, l>>

\* all the offsets that occur in a zone
AllOffs == [zz \in DOMAIN ZoneData |-> {OffsetAt(zz, <<d, h * 7200>>) : d \in (D0 - 2)..(D1 + 2), h \in 0..11}]
AllOffsets == AllOffs[z]
\* the moments that show l, by brute force over all offsets there are
Moments == {m \in {SecAdd(l, -o) : o \in AllOffsets} : SecAdd(m, OffsetAt(z, m)) = l}
Loc == <<l[1], l[2], 0>>
Res(dis) == ResolveIn("Zoned", Loc, z, dis)
Mom(v) == LET m == Moment(v) IN <<m[1], m[2]>>
Shown(v) == LET s == LocalSpan(v) IN <<s[1], s[2]>>

Kinds ==
  LET r == Resolve(z, l)
      n == Cardinality(Moments)
  IN /\ n <= 2
     /\ (n = 1 <=> r[1] = "one")
     /\ (n = 2 <=> r[1] = "fold")
     /\ (n = 0 <=> r[1] = "gap")
Occurs ==
  LET e == Res("earlier")  t == Res("later")  c == Res("compatible")  r == Res("raise")
      kind == Resolve(z, l)[1]
  IN /\ kind # "gap" => {Mom(e), Mom(t)} = Moments /\ Shown(e) = l /\ Shown(t) = l
     /\ SecLE(Mom(e), Mom(t))
     /\ kind = "one" => c = e /\ c = t /\ c = r
     /\ kind = "fold" => c = e /\ r = Err("Repeated") /\ e # t
     \* before and after the gap: by the length of the gap away from l
     /\ kind = "gap" => /\ c = t /\ r = Err("Skipped")
                        /\ SecLT(Shown(e), l) /\ SecLT(l, Shown(t))
                        /\ t.n[8] - e.n[8] = SecDiff(Shown(t), l)
                        /\ t.n[8] - e.n[8] = SecDiff(l, Shown(e))
     /\ Valid(e) /\ Valid(t)
\* keeping an offset: whoever shows l keeps it
Keeps ==
  \A m \in Moments : Mom(ResolveKeep("Zoned", Loc, z, OffsetAt(z, m))) = m
\* the other direction: a moment is among those that its local time resolves to
Back ==
  LET v == MkZoned(Loc, z)      \* l as a moment
      r == ResolveKeep("Zoned", LocalSpan(v), z, v.n[8])
  IN r = v

\* the days tile the line of moments
DayLaws ==
  Slow /\ l[2] < Step =>
    LET s == StartOfDay(z, l[1])  e == StartOfDay(z, l[1] + 1)
        DateAt(m) == SecAdd(m, OffsetAt(z, m))[1]
        Instants == {SecAdd(s, k * 1800) : k \in 0..(SecDiff(e, s) \div 1800 - 1)}
        exists == \E m \in Instants : DateAt(m) = l[1]
    IN /\ SecLE(s, e)
       /\ exists => /\ DateAt(s) = l[1]                  \* it is the first moment of the day
                    /\ \A k \in {1, 60, 1800, 3600, 7200, 40000} : DateAt(SecAdd(s, -k)) # l[1] \/ Resolve(z, <<l[1], 0>>)[1] = "fold"
       /\ \A x \in {LocalSpan(MkZoned(<<m[1], m[2], 0>>, z)) : m \in Instants} : x[1] >= l[1] - 1
Ambiguity == BoolOf(CHOOSE b \in IsAmbiguous(VZ("Zoned", Fields(Loc) \o <<0>>, z), "U") : TRUE) = (Cardinality(Moments) = 2)
=============================================================================
