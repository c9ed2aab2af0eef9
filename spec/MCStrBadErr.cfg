SPECIFICATION Spec
CONSTANTS NOut = 3 NIn = 1 Cap = 1 Chunk = 1 Bad = "Err"
INVARIANTS InOrder Whole
PROPERTY Done
CHECK_DEADLOCK FALSE
