SPECIFICATION LawsSpec
INVARIANTS Found NotBad
CHECK_DEADLOCK FALSE
