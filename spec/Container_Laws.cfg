SPECIFICATION CLawsSpec
INVARIANTS HeaderBack BlocksBack AllBack
CHECK_DEADLOCK FALSE
