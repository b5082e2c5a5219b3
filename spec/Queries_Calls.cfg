SPECIFICATION CallsSpec
CONSTANT Plus = TRUE
CONSTANT HrMode = TRUE
INVARIANT CallOk
CHECK_DEADLOCK FALSE
