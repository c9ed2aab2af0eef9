SPECIFICATION Spec
CONSTANTS NOut = 3 NIn = 2 Cap = 1 Chunk = 1 Bad = "Replace"
INVARIANTS InOrder Whole
PROPERTY Done
CHECK_DEADLOCK FALSE
