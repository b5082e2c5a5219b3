SPECIFICATION Spec
INVARIANT ActOk
INVARIANT Report
CHECK_DEADLOCK FALSE
