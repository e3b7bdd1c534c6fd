SPECIFICATION Spec
CONSTANTS
  Width = 2
  Steps = 4
INVARIANTS Values1 MadeThen
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
