SPECIFICATION CasesSpec
INVARIANTS Covered Aligned Show
CHECK_DEADLOCK FALSE
