SPECIFICATION Spec
CONSTANT Slots = {1, 2, 3, 4}
CONSTANT MaxLen = 60
CONSTANT EncInputs = {"next", "next", "a", "short", "long", "nullh"}
CONSTANT DecInputs = {"next", "g", "bad", "lost", "short", "long", "nullh"}
CONSTANT Mode = "mix"
INVARIANT TypeOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
