SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS WellFormed ExactLaws DiffLaws OrderLaws ConvertLaws EpochLaws WallLaws PureLaws MixedLaws ReplaceLaws DayLaws PyLaws DateLaws PartialLaws PickleLaws Closed Refused
CHECK_DEADLOCK FALSE
