SPECIFICATION LawsSpec
CONSTANT Plus = TRUE
CONSTANT HrMode = TRUE
INVARIANT RoundTrip
INVARIANT Dimensions
CHECK_DEADLOCK FALSE
