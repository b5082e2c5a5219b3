SPECIFICATION CallsSpec
CONSTANT Plus = TRUE
CONSTANT HrMode = FALSE
INVARIANT CallOk
CHECK_DEADLOCK FALSE
