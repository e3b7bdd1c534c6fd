SPECIFICATION Spec
CONSTANTS
  Years = {1, 2, 3, 4, 5, 1582, 1600, 1700, 1900, 1970, 2000, 2001, 2024, 2037, 2038, 2100, 2400, 9900}
  Run = 29
INVARIANTS Days Clocks Changes Anchors Tables
CHECK_DEADLOCK FALSE
