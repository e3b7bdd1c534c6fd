SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS ReadBack Apart Internet Canonical
CHECK_DEADLOCK FALSE
