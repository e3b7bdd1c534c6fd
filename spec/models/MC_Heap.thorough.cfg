SPECIFICATION Spec
CONSTANTS
  Width = 2
  Steps = 5
INVARIANTS Values1 MadeThen
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
