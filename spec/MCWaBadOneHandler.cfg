SPECIFICATION Spec
CONSTANTS Descs = {1, 2} Dirs = {1, 2} Changes = 3 Piece = 2 Renew = 2 Bad = "OneHandler"
INVARIANTS InOrder Kept
PROPERTY AllReported
CHECK_DEADLOCK FALSE
