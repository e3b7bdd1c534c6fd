SPECIFICATION Spec
CONSTANTS
  MaxNest = 3
  MaxReal = 2
  MaxShifts = 2
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS Exactly Nested NoPatch Standing Asked
PROPERTIES Restores Passes Moves
