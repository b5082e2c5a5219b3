SPECIFICATION BSpec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
