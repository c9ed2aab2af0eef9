SPECIFICATION Spec
CONSTANTS NOut = 1 NIn = 2 Cap = 1 Chunk = 1 Bad = "Eof"
INVARIANTS InOrder Whole
CHECK_DEADLOCK FALSE
