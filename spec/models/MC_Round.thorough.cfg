SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Agree Multiple Near Between Nearest Again Mirror Increments
CHECK_DEADLOCK FALSE
