SPECIFICATION LawsSpec
INVARIANTS Covered Whole Aligned
CHECK_DEADLOCK FALSE
