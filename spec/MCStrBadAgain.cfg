SPECIFICATION Spec
CONSTANTS NOut = 3 NIn = 1 Cap = 1 Chunk = 1 Bad = "Again"
INVARIANTS InOrder Whole
CHECK_DEADLOCK FALSE
