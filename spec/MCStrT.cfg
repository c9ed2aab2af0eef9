SPECIFICATION Spec
CONSTANTS NOut = 24 NIn = 20 Cap = 6 Chunk = 3 Bad = "none"
INVARIANTS InOrder Whole
PROPERTY Done
CHECK_DEADLOCK FALSE
