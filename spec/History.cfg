SPECIFICATION HistorySpec
CHECK_DEADLOCK FALSE
