SPECIFICATION Spec
CONSTANTS
  MaxNest = 2
  MaxReal = 2
  MaxShifts = 1
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS Exactly Nested NoPatch Standing Asked
PROPERTIES Restores Passes Moves
