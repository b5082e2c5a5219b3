SPECIFICATION CallsSpec
CONSTANT Plus = FALSE
CONSTANT HrMode = FALSE
INVARIANT CallOk
CHECK_DEADLOCK FALSE
