SPECIFICATION WrittenSpec
INVARIANT WrittenOk
CHECK_DEADLOCK FALSE
