SPECIFICATION Spec
CONSTANTS
  Starts = {1, 381, 1181, 1591, 1881, 1981, 9971}
  Days = 11000
INVARIANTS Agrees Lengths Anchors MonthLaws DiffLaws
CHECK_DEADLOCK FALSE
