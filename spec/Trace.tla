-------------------------------- MODULE Trace --------------------------------
(* Conformance of recorded behaviour of the real library with Whenever:     *)
(* every line is a call with its arguments and result; all lines are judged *)
(* and those that the specification doesn't allow are printed.              *)
EXTENDS Whenever

Events == ndJsonDeserialize(IOEnv.WHENEVER_TRACE)

VARIABLES l, bad


TraceInit == sysTz = "" /\ heap = <<>> /\ clock = <<>> /\ l = 1 /\ bad = 0
TraceNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l] IN bad' = bad + (IF Allowed(e.op, e.a, e.r, e.sys) THEN 0 ELSE
        IF PrintT(<<"MISMATCH", l, Known(e.op, e.a, e.r, e.sys)>>) THEN 1 ELSE 1)
  /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, bad>>
=============================================================================
