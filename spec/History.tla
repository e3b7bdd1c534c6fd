------------------------------- MODULE History -------------------------------
(* Conformance of recorded histories: calls whose arguments and results are *)
(* entries of the heap, changes of the system timezone, time patches.       *)
EXTENDS Whenever

Events == ndJsonDeserialize(IOEnv.WHENEVER_TRACE)
VARIABLES l, bad

\* the arguments of call e, as the specification knows them
Args(e) == [i \in 1..Len(e.a) |-> IF e.h[i] = 0 THEN e.a[i] ELSE heap[e.h[i]].v]
Known0(e) == IF e.act = "call" THEN Known(e.op, Args(e), e.r, sysTz) ELSE ""

\* is e a step the specification allows?  (the step is made in any case)
Verdict(e) ==
  CASE e.act = "reset" -> TRUE
    [] e.act = "tz" -> TRUE
    [] e.act = "call" -> e.a = Args(e) /\ Allowed(e.op, e.a, e.r, sysTz)
    [] e.act = "look" -> heap[e.i] = [v |-> e.v, x |-> e.x]
    [] e.act = "again" -> e.r = Events[e.of].r
    [] e.act = "enter" -> e.ok
    [] e.act = "leave" -> e.ok /\ clock # <<>>
    [] e.act = "fail" -> TRUE
    [] e.act = "shift" -> ShiftOK(e.n, e.op, e.a, e.r, e.lo, e.hi)
    [] e.act = "now" -> NowOK(e.t, e.z, e.r, e.lo, e.hi)
    [] e.act = "none" -> TRUE

Step(e) ==
  CASE e.act = "reset" -> sysTz' = "UTC" /\ heap' = <<>> /\ clock' = <<>>
    [] e.act = "tz" -> SetTz(e.z)
    [] e.act = "call" -> Keep(e.i, e.r, e.x)
    [] e.act = "enter" -> Enter(e.mode, e.v, e.lo, e.hi)
    [] e.act = "leave" -> Leave(e.lo, e.hi)
    [] e.act = "fail" -> NotEntered(e.lo, e.hi)
    [] e.act = "shift" -> ShiftStep(e.n, e.op, e.a, e.r, e.lo, e.hi)
    [] OTHER -> UNCHANGED vars

HistoryInit == Initial /\ l = 1 /\ bad = 0
HistoryNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l]
     IN /\ bad' = bad + (IF Verdict(e) THEN 0
                         ELSE IF PrintT(<<"MISMATCH", l, Known0(e)>>) THEN 1 ELSE 1)
        /\ Step(e)
HistorySpec == HistoryInit /\ [][HistoryNext]_<<vars, l, bad>>
=============================================================================
