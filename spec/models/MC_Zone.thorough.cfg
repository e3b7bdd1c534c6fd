SPECIFICATION Spec
CONSTANTS
  Step = 599
  Slow = TRUE
INVARIANTS Kinds Occurs Keeps Back DayLaws Ambiguity
CHECK_DEADLOCK FALSE
