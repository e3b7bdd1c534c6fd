SPECIFICATION Spec
CONSTANT Top = 1000000
INVARIANTS Arithmetic Division Spans Deltas Kinds Limits FieldRanges
CHECK_DEADLOCK FALSE
