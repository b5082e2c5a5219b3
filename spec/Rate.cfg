SPECIFICATION Spec
INVARIANT Report
INVARIANT Bounded
CHECK_DEADLOCK FALSE
