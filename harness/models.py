"""Which models of the specification (../spec/<module>.tla, with the constants
of ../spec/models/<module>.cfg), and which of their laws, belong to which property."""
MODELS = {
    "C01": {"MC_Ops": ["WellFormed", "ExactLaws", "DiffLaws"]},
    "C02": {"MC_Ops": ["OrderLaws"]},
    "C03": {"MC_Rule": ["Days", "Clocks", "Changes", "Anchors", "Tables"], "MC_Ops": ["ConvertLaws"]},
    "C04": {"MC_Zone": ["Kinds", "Occurs", "Keeps", "Back"], "MC_Rule": ["Changes", "Tables"]},
    "C05": {"MC_Ops": ["WallLaws", "MixedLaws"]},
    "C06": {"MC_Calendar": ["Agrees", "Lengths", "Anchors", "MonthLaws", "DiffLaws"], "MC_Ops": ["DateLaws"]},
    "C07": {"MC_Numbers": ["Arithmetic", "Division", "Spans", "Deltas", "Kinds", "Limits"]},
    "C08": {"MC_Numbers": ["Deltas", "Kinds", "Limits"]},
    "C09": {"MC_Text": ["ReadBack", "Apart", "Canonical"]},
    "C10": {"MC_Text": ["Apart", "Canonical"]},
    "C11": {"MC_Text": ["Internet"]},
    "C12": {"MC_Ops": ["PickleLaws"]},
    "C13": {"MC_Round": ["Agree", "Multiple", "Near", "Between", "Nearest", "Again", "Mirror", "Increments"], "MC_Ops": ["DayLaws"]},
    "C14": {"MC_Ops": ["WellFormed", "Closed"], "MC_Heap": ["Values1"]},
    "C15": {"MC_Ops": ["Refused"], "MC_Numbers": ["FieldRanges"]},
    "C16": {"MC_Ops": ["PyLaws"]},
    "C17": {"MC_Clock": ["Exactly", "Nested", "NoPatch", "Standing", "Asked", "Restores", "Passes", "Moves"]},
    "C18": {"MC_Zone": ["DayLaws", "Ambiguity"], "MC_Ops": ["DayLaws"]},
    "C19": {"MC_Ops": ["WallLaws", "PureLaws", "MixedLaws"]},
    "C20": {"MC_Calendar": ["Agrees", "Lengths", "Anchors"], "MC_Ops": ["PartialLaws"]},
    "C21": {"MC_Heap": ["Values1", "Immutable"]},
    "C22": {"MC_Heap": ["MadeThen", "Immutable"], "MC_Ops": ["ConvertLaws"]},
    "C23": {"MC_Ops": ["ReplaceLaws"]},
    "C24": {"MC_Ops": ["EpochLaws"]},
    "C25": {"MC_Ops": ["PyLaws"]},
}
