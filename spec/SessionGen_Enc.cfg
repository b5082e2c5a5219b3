SPECIFICATION Spec
CONSTANT Slots = {1}
CONSTANT MaxLen = 5
CONSTANT EncInputs = {"a", "b", "A", "short", "long", "nullh"}
CONSTANT DecInputs = {}
CONSTANT Mode = "all"
INVARIANT TypeOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
