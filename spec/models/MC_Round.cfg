SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Agree Multiple Near Between Nearest Again Mirror Increments
CHECK_DEADLOCK FALSE
