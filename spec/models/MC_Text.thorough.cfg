SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS ReadBack Apart Internet Canonical
CHECK_DEADLOCK FALSE
