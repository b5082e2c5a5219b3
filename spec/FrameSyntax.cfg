SPECIFICATION Spec
INVARIANT VerdictOk
INVARIANT FieldsOk
INVARIANT CursorsOk
INVARIANT WellFormed
INVARIANT EmitOk
CHECK_DEADLOCK FALSE
