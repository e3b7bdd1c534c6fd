SPECIFICATION Spec
CONSTANTS
  Starts = {1, 99, 396, 1899, 1999, 2023, 9998}
  Days = 430
INVARIANTS Agrees Lengths Anchors MonthLaws DiffLaws
CHECK_DEADLOCK FALSE
