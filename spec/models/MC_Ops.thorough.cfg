SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS WellFormed ExactLaws DiffLaws OrderLaws ConvertLaws EpochLaws WallLaws PureLaws MixedLaws ReplaceLaws DayLaws PyLaws DateLaws PartialLaws PickleLaws Closed Refused
CHECK_DEADLOCK FALSE
