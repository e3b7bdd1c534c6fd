------------------------------ MODULE MC_Clock -------------------------------
(* The clock of the state machine, explored exhaustively: patches entered,  *)
(* shifted and left in every order while the real clock goes on (C17).      *)
EXTENDS Whenever
CONSTANTS MaxNest, MaxReal, MaxShifts
VARIABLES real,      \* the real clock
          left,      \* ghost: shifts left
          saved      \* ghost: for each patch, what now was when it was entered, and when that was
all == <<vars, real, saved, left>>

T0 == <<730003, 3600, 0>>
Pins == {MkZoned(<<730002, 3599, 5>>, "E"), V("Instant", <<730004, 0, 0>>), MkZoned(<<730006, 3500, 0>>, "E")}
Shifts == {V("KW", [j \in 1..10 |-> IF j = i THEN IntSeq(Big(1)) ELSE <<0>>]) : i \in {3, 5, 7}}
ArgsOf(kw) == <<kw, Sym(""), Bool(TRUE)>>

Now0 == NowBounds(real, real)[1]
MCInit == Initial /\ real = T0 /\ saved = <<>> /\ left = MaxShifts
GoOn == real[2] < T0[2] + MaxReal /\ real' = SpanAdd(real, <<0, 1, 0>>) /\ UNCHANGED <<vars, saved, left>>
EnterP == \E mode \in {"frozen", "ticking"}, v \in Pins :
  Len(clock) < MaxNest /\ Enter(mode, v, real, real) /\ saved' = Append(saved, <<clock, real>>) /\ UNCHANGED <<real, left>>
LeaveP == Leave(real, real) /\ saved' = Front(saved) /\ UNCHANGED <<real, left>>
ShiftP == \E kw \in Shifts, n \in 1..Len(clock) :
  /\ left > 0 /\ left' = left - 1
  /\ clock[n].lo.t = "Instant" => kw.n[3] = <<0>>
  /\ ShiftClock(n, "add", ArgsOf(kw), None, real, real)
  \* (the patches within it remember it shifted)
  /\ saved' = [j \in 1..Len(saved) |-> IF j > n THEN <<[saved[j][1] EXCEPT ![n] = clock'[n]], saved[j][2]>> ELSE saved[j]]
  /\ UNCHANGED real
\* shifting a patch that has ended does nothing
EndedP == \E kw \in Shifts : ShiftClock(0, "add", ArgsOf(kw), None, real, real) /\ UNCHANGED <<real, saved, left>>
MCNext == GoOn \/ EnterP \/ LeaveP \/ ShiftP \/ EndedP
Spec == MCInit /\ [][MCNext]_all

Bound == \A i \in 1..Len(clock) : clock[i].mode # "vague" /\ Moment(clock[i].lo)[1] < 730014

\* with nothing unknown about the real clock, nothing is unknown about the time
Exactly == NowBounds(real, real)[1] = NowBounds(real, real)[2]
Nested == Len(saved) = Len(clock)
NoPatch == clock = <<>> => Now0 = real
\* leaving a patch brings back the clock as it was before it
Restores == [][Len(clock') < Len(clock) => clock' = Last(saved)[1]]_all
\* a frozen time stands still, a ticking one goes on with the real one, until shifted
Passes == [][real' # real => LET was == NowBounds(real, real)[1]  is == NowBounds(real', real')[1]
                             IN clock' = clock]_all
Standing == \A n \in 1..3 :
  LET later == SpanAdd(real, <<0, n, 0>>)
  IN clock # <<>> => NowBounds(later, later)[1] =
       (IF Last(clock).mode = "ticking" THEN SpanAdd(Now0, <<0, n, 0>>) ELSE Now0)
\* a shift moves the time its patch shows as the same shift of the value does,
\* and no other; the present time only if the patch is the innermost one
Shows(p) == IF p.mode = "ticking" THEN SpanAdd(Moment(p.lo), SpanSub(real, p.real[2])) ELSE Moment(p.lo)
Moves == [][clock # <<>> /\ Len(clock') = Len(clock) /\ clock' # clock =>
             \E n \in 1..Len(clock) :
               LET p == clock[n]  q == clock'[n]
               IN /\ q.mode = p.mode
                  /\ \A j \in (1..Len(clock)) \ {n} : clock'[j] = clock[j]
                  /\ SpanLT(Shows(p), Moment(q.lo))
                  /\ (n < Len(clock)) <=> (Now0' = Now0)]_all
\* each of the times asked for is the same moment
Asked == \A t \in {"Instant", "Offset", "Zoned", "System"} :
  LET a == CASE t = "Zoned" -> Sym("N") [] t = "Offset" -> Int32(3) [] OTHER -> None
  IN \E r \in AsType(t, Now0, a, sysTz) : NowOK(t, a, r, real, real) /\ Moment(r) = Now0
=============================================================================
