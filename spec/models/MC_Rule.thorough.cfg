SPECIFICATION Spec
CONSTANTS
  Years = {1}
  Run = 10000
INVARIANTS Days Clocks Changes Anchors Tables
CHECK_DEADLOCK FALSE
