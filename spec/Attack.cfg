SPECIFICATION Spec
INVARIANT PosOk
INVARIANT Report
CHECK_DEADLOCK FALSE
