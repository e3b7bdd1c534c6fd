SPECIFICATION Spec
CONSTANTS
  Step = 3597
  Slow = TRUE
INVARIANTS Kinds Occurs Keeps Back DayLaws Ambiguity
CHECK_DEADLOCK FALSE
