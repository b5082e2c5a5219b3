SPECIFICATION Spec
CONSTANT Slots = {1}
CONSTANT MaxLen = 5
CONSTANT EncInputs = {}
CONSTANT DecInputs = {"g", "h", "bad", "bad2", "lost", "short", "long", "nullh"}
CONSTANT Mode = "all"
INVARIANT TypeOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
