SPECIFICATION Spec
CONSTANT Slots = {1}
CONSTANT MaxLen = 60
CONSTANT EncInputs = {}
CONSTANT DecInputs = {"next", "bad", "lost", "g", "h"}
CONSTANT Mode = "all"
INVARIANT TypeOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
