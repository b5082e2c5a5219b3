SPECIFICATION FilesSpec
INVARIANT FilesOk
CHECK_DEADLOCK FALSE
