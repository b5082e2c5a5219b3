SPECIFICATION CallsSpec
CONSTANT Plus = FALSE
CONSTANT HrMode = TRUE
INVARIANT CallOk
CHECK_DEADLOCK FALSE
