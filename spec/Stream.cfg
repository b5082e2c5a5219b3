SPECIFICATION Spec
INVARIANT Report
INVARIANT SameTime
CHECK_DEADLOCK FALSE
