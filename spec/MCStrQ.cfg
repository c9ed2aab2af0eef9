SPECIFICATION Spec
CONSTANTS NOut = 4 NIn = 4 Cap = 2 Chunk = 2 Bad = "none"
INVARIANTS InOrder Whole
PROPERTY Done
CHECK_DEADLOCK FALSE
