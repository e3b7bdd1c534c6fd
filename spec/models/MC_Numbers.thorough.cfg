SPECIFICATION Spec
CONSTANT Top = 999999999
INVARIANTS Arithmetic Division Spans Deltas Kinds Limits FieldRanges
CHECK_DEADLOCK FALSE
